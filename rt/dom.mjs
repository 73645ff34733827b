// A small document: enough of the browser for pages made of elements, text,
// attributes and listeners. Events bubble.
const voids = new Set(['area', 'base', 'br', 'col', 'hr', 'img', 'input', 'link', 'meta', 'source'])
const names = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: ' ' }
const decode = s => s.replace(/&(#x[0-9a-f]+|#[0-9]+|[a-z]+);/gi, (all, n) =>
  n[0] === '#' ? String.fromCodePoint(n[1] === 'x' || n[1] === 'X' ? parseInt(n.slice(2), 16) : parseInt(n.slice(1))) : names[n] ?? all)
const encode = s => s.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;')

class Target {
  constructor() { this.listeners = [] }
  addEventListener(type, fn, opt) {
    const capture = opt === true || !!(opt && opt.capture)
    if (!fn || this.listeners.some(l => l.type === type && l.fn === fn && l.capture === capture)) return
    this.listeners.push({ type, fn, capture, once: !!(opt && opt.once) })
  }
  removeEventListener(type, fn, opt) {
    const capture = opt === true || !!(opt && opt.capture)
    this.listeners = this.listeners.filter(l => !(l.type === type && l.fn === fn && l.capture === capture))
  }
  dispatchEvent(event) {
    const path = []
    for (let n = this; n; n = n.parentNode) path.push(n)
    event.target = this
    const call = (n, capture) => {
      event.currentTarget = n
      for (const l of n.listeners.slice()) {
        if (event.now || l.type !== event.type || (n !== this && l.capture !== capture) || !n.listeners.includes(l)) continue
        if (l.once) n.removeEventListener(l.type, l.fn, l.capture)
        event.run(() => typeof l.fn === 'function' ? l.fn.call(n, event) : l.fn.handleEvent(event))
      }
      if (!capture && typeof n['on' + event.type] === 'function') event.run(() => n['on' + event.type](event))
    }
    for (const n of path.slice(1).reverse()) if (!event.stopped) call(n, true)
    for (const n of path) if (!event.stopped) call(n, false)
    return true
  }
}

export class Event {
  constructor(type, run) { this.type = type; this.run = run || (f => f()); this.bubbles = true; this.detail = 0 }
  stopPropagation() { this.stopped = true }
  stopImmediatePropagation() { this.stopped = this.now = true }
  preventDefault() { this.defaultPrevented = true }
}

class Text {
  constructor(data) { this.data = data; this.parentNode = null; this.nodeType = 3 }
  get textContent() { return this.data }
  set textContent(t) { this.data = String(t) }
  remove() { if (this.parentNode) this.parentNode.removeChild(this) }
}

class Element extends Target {
  constructor(tag) {
    super()
    this.localName = tag
    this.attrs = new Map()
    this.childNodes = []
    this.parentNode = null
    this.nodeType = 1
    this.style = { setProperty() {}, removeProperty() {} }
    const me = this
    this.classList = {
      all: () => (me.getAttribute('class') ?? '').split(/\s+/).filter(c => c),
      contains: c => me.classList.all().includes(c),
      add: (...cs) => me.setAttribute('class', [...new Set([...me.classList.all(), ...cs])].join(' ')),
      remove: (...cs) => me.setAttribute('class', me.classList.all().filter(c => !cs.includes(c)).join(' ')),
      toggle(c, on) { if (on ?? !this.contains(c)) { this.add(c); return true } this.remove(c); return false },
      replace(a, b) { if (!this.contains(a)) return false; this.remove(a); this.add(b); return true },
    }
  }
  get tagName() { return this.localName.toUpperCase() }
  get nodeName() { return this.tagName }
  getAttribute(n) { return this.attrs.has(n) ? this.attrs.get(n) : null }
  hasAttribute(n) { return this.attrs.has(n) }
  setAttribute(n, v) { this.attrs.set(n, String(v)) }
  removeAttribute(n) { this.attrs.delete(n) }
  toggleAttribute(n, on) { if (on ?? !this.attrs.has(n)) this.attrs.set(n, ''); else this.attrs.delete(n) }
  get id() { return this.getAttribute('id') ?? '' }
  set id(v) { this.setAttribute('id', v) }
  get className() { return this.getAttribute('class') ?? '' }
  set className(v) { this.setAttribute('class', v) }
  get src() { return this.getAttribute('src') ?? '' }
  set src(v) { this.setAttribute('src', v) }
  get hidden() { return this.attrs.has('hidden') }
  set hidden(on) { this.toggleAttribute('hidden', !!on) }
  get children() { return this.childNodes.filter(c => c.nodeType === 1) }
  get childElementCount() { return this.children.length }
  get firstChild() { return this.childNodes[0] ?? null }
  get lastChild() { return this.childNodes.at(-1) ?? null }
  get firstElementChild() { return this.children[0] ?? null }
  get lastElementChild() { return this.children.at(-1) ?? null }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null }
  sibling(d, all) { const l = this.parentNode ? (all ? this.parentNode.childNodes : this.parentNode.children) : []; return l[l.indexOf(this) + d] ?? null }
  get nextSibling() { return this.sibling(1, true) }
  get previousSibling() { return this.sibling(-1, true) }
  get nextElementSibling() { return this.sibling(1) }
  get previousElementSibling() { return this.sibling(-1) }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n instanceof Document }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false }
  insertBefore(c, ref) {
    if (c instanceof Fragment) { for (const x of c.childNodes.slice()) this.insertBefore(x, ref); return c }
    if (c.contains && c.contains(this)) throw new Error('HierarchyRequestError')
    if (ref && ref.parentNode !== this) throw new Error('NotFoundError')
    if (c.parentNode) c.parentNode.removeChild(c)
    c.parentNode = this
    this.childNodes.splice(ref ? this.childNodes.indexOf(ref) : this.childNodes.length, 0, c)
    return c
  }
  appendChild(c) { return this.insertBefore(c, null) }
  removeChild(c) {
    if (c.parentNode !== this) throw new Error('NotFoundError')
    this.childNodes.splice(this.childNodes.indexOf(c), 1)
    c.parentNode = null
    return c
  }
  replaceChild(c, old) { this.insertBefore(c, old); return this.removeChild(old) }
  append(...cs) { for (const c of cs) this.appendChild(typeof c === 'string' ? new Text(c) : c) }
  prepend(...cs) { const f = this.firstChild; for (const c of cs) this.insertBefore(typeof c === 'string' ? new Text(c) : c, f) }
  replaceChildren(...cs) { for (const c of this.childNodes.slice()) this.removeChild(c); this.append(...cs) }
  remove() { if (this.parentNode) this.parentNode.removeChild(this) }
  before(...cs) { for (const c of cs) this.parentNode.insertBefore(typeof c === 'string' ? new Text(c) : c, this) }
  after(...cs) { const n = this.nextSibling; for (const c of cs) this.parentNode.insertBefore(typeof c === 'string' ? new Text(c) : c, n) }
  replaceWith(...cs) { if (this.parentNode) { this.before(...cs); this.remove() } }
  cloneNode(deep) {
    const e = new Element(this.localName)
    for (const [k, v] of this.attrs) e.attrs.set(k, v)
    if (deep) for (const c of this.childNodes) e.appendChild(c.nodeType === 3 ? new Text(c.data) : c.cloneNode(true))
    return e
  }
  get textContent() { return this.childNodes.map(c => c.textContent).join('') }
  set textContent(t) { this.replaceChildren(...(t === '' ? [] : [String(t)])) }
  get innerText() { return this.textContent }
  set innerText(t) { this.textContent = t }
  get innerHTML() { return this.childNodes.map(html).join('') }
  set innerHTML(t) { this.replaceChildren(...parse(String(t))) }
  get outerHTML() { return html(this) }
  set outerHTML(t) {
    if (!this.parentNode) return
    if (this.parentNode instanceof Document) throw new Error('NoModificationAllowedError')
    this.replaceWith(...parse(String(t)))
  }
  insertAdjacentHTML(where, t) { this.insertAdjacent(where, parse(String(t))) }
  insertAdjacentElement(where, e) { this.insertAdjacent(where, [e]); return e }
  insertAdjacent(where, list) { ({ beforebegin: l => this.before(...l), afterbegin: l => this.prepend(...l), beforeend: l => this.append(...l), afterend: l => this.after(...l) })[where.toLowerCase()](list) }
  * walk() { for (const c of this.children) { yield c; yield* c.walk() } }
  matches(s) {
    return s.split(',').some(p => {
      const m = /^([a-z0-9*]*)((?:[#.][^#.\[]+)*)((?:\[[^\]]+\])*)$/i.exec(p.trim().replace(/\\(.)/g, '$1'))
      if (!m) throw new Error('selector ' + s)
      return (!m[1] || m[1] === '*' || m[1].toLowerCase() === this.localName) &&
        [...m[2].matchAll(/([#.])([^#.]+)/g)].every(x => x[1] === '#' ? this.id === x[2] : this.classList.contains(x[2])) &&
        [...m[3].matchAll(/\[([^=\]]+)(?:="?([^"\]]*)"?)?\]/g)].every(x => x[2] === undefined ? this.hasAttribute(x[1]) : this.getAttribute(x[1]) === x[2])
    })
  }
  closest(s) { for (let n = this; n instanceof Element; n = n.parentNode) if (n.matches(s)) return n; return null }
  querySelector(s) { for (const n of this.walk()) if (n.matches(s)) return n; return null }
  querySelectorAll(s) { return [...this.walk()].filter(n => n.matches(s)) }
  getElementsByClassName(c) { return [...this.walk()].filter(n => n.classList.contains(c)) }
  getElementsByTagName(t) { return [...this.walk()].filter(n => t === '*' || n.localName === t.toLowerCase()) }
  click() { this.dispatchEvent(new Event('click')) }
  focus() {}
  blur() {}
}

class Fragment extends Element { constructor() { super('#fragment'); this.nodeType = 11 } }

export class Document extends Element {
  constructor() {
    super('#document')
    this.nodeType = 9
    this.documentElement = this.appendChild(new Element('html'))
    this.head = this.documentElement.appendChild(new Element('head'))
    this.body = this.documentElement.appendChild(new Element('body'))
    this.adoptedStyleSheets = []
    this.readyState = 'complete'
  }
  getElementById(id) { id = String(id); if (id !== '') for (const n of this.walk()) if (n.id === id) return n; return null }
  createElement(t) { return t.toLowerCase() === 'template' ? new Template() : new Element(t.toLowerCase()) }
  createTextNode(t) { return new Text(String(t)) }
  createDocumentFragment() { return new Fragment() }
}

class Template extends Element {
  constructor() { super('template'); this.content = new Fragment() }
  set innerHTML(t) { this.content.replaceChildren(...parse(String(t))) }
  get innerHTML() { return this.content.innerHTML }
}

function html(n) {
  if (n.nodeType === 3) return encode(n.data)
  const a = [...n.attrs].map(([k, v]) => ` ${k}="${encode(v).replace(/"/g, '&quot;')}"`).join('')
  return `<${n.localName}${a}>` + (voids.has(n.localName) ? '' : n.innerHTML + `</${n.localName}>`)
}

export function parse(t) {
  const top = new Element('#top')
  const stack = [top]
  let i = 0
  const text = s => { if (s !== '') stack.at(-1).appendChild(new Text(decode(s))) }
  while (i < t.length) {
    const open = /^<([a-zA-Z][^\s\/>]*)((?:\s+[^\s=>\/"']+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']+))?)*)\s*(\/?)>/.exec(t.slice(i))
    const close = /^<\/([a-zA-Z][^\s>]*)\s*>/.exec(t.slice(i))
    const note = /^<!--[^]*?-->|^<![^>]*>/.exec(t.slice(i))
    if (open) {
      const e = new Element(open[1].toLowerCase())
      for (const a of open[2].matchAll(/([^\s=]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']+)))?/g)) if (!e.attrs.has(a[1])) e.setAttribute(a[1], decode(a[2] ?? a[3] ?? a[4] ?? ''))
      stack.at(-1).appendChild(e)
      if (!voids.has(e.localName)) stack.push(e)
      i += open[0].length
    } else if (close) {
      const k = stack.findLastIndex(e => e.localName === close[1].toLowerCase())
      if (k > 0) stack.length = k
      i += close[0].length
    } else if (note) i += note[0].length
    else {
      let j = t.indexOf('<', i + 1)
      if (j < 0) j = t.length
      text(t.slice(i, j))
      i = j
    }
  }
  const out = top.childNodes.slice()
  for (const c of out) c.parentNode = null
  return out
}

// what a user sees of an element
export function seen(n) {
  let s = '<' + n.localName + ' ' + n.id
  const cs = n.classList.all().sort()
  if (n.hidden) cs.push('(hidden)')
  if (cs.length) s += ' .' + cs.join('.')
  if (n.attrs.has('src')) s += ' ' + n.src
  s += '>'
  let text = ''
  for (const c of n.childNodes) {
    if (c.nodeType === 3) text += c.data
    else { s += text.trim() + seen(c); text = '' }
  }
  return s + text.trim() + '</>'
}

export function install() {
  globalThis.document = new Document()
  globalThis.window = globalThis
  globalThis.Event = Event
  globalThis.HTMLElement = globalThis.Element = Element
  globalThis.CSSStyleSheet = class { async replace(t) { this.text = t; return this } replaceSync(t) { this.text = t } }
  globalThis.CSS = { escape: s => String(s).replace(/[^a-zA-Z0-9_\u0080-￿-]/g, '\\$&') }
  globalThis.requestAnimationFrame = f => queueMicrotask(f)
  const app = document.createElement('div')
  app.id = 'app'
  document.body.appendChild(app)
}
