// Runs generated JavaScript programs under a simulated scheduler. Reads one
// scenario per line, writes one history per line. usage: node driver.mjs SRC
import { createInterface } from 'node:readline'
import { pathToFileURL } from 'node:url'
const src = process.argv[2]
const load = async p => (await import(pathToFileURL(src + '/' + p).href)).default
const vx_core = await load('vx/core.js')
const sim_prog = await load('sim/prog.js')
const libs = [sim_prog, vx_core]
for (const lib of process.argv.slice(3)) libs.push(await load(lib + '.js'))
const tick = setImmediate
console.log = console.error // what the programs print is not the history

const hex = s => Buffer.from(s, 'utf8').toString('hex')
const unhex = s => Buffer.from(s, 'hex').toString('utf8')

const typeOf = n => libs.map(l => l['t_' + n]).find(t => t)

const nameOf = t => (t && t.vx_value && t.vx_value.name) || '?'

// a structure field with its empty value is the same as an absent one
const blank = s => s[0] === '?' || s === 's' || s === 'i0' || s === 'b0' || s === 'null' || /^[LMR] \S+ 0$/.test(s)

function show(v) {
  switch (typeof v) {
  case 'string': return 's' + hex(v)
  case 'number': return 'i' + v
  case 'boolean': return v ? 'b1' : 'b0'
  case 'undefined': return 'null'
  }
  if (v === null) return 'null'
  if (Array.isArray(v)) return ['L', nameOf(v.vx_type), v.length, ...v.map(show)].join(' ')
  const t = v.vx_type
  if (t === vx_core.t_string || t === vx_core.t_int || t === vx_core.t_boolean) return show(v.vx_value)
  if (typeof v.vx_value === 'function' || typeof v.then === 'function') return '?func'
  const kind = t && t.vx_value && t.vx_value.extends === ':map' ? 'M' : 'R'
  const val = v.vx_value || {}
  const parts = Object.keys(val).map(k => ['k' + hex(k), show(val[k])]).filter(p => kind === 'M' || !blank(p[1]))
  parts.sort((a, b) => a[0] < b[0] ? -1 : 1)
  return [kind, nameOf(t), parts.length, ...parts.map(p => p.join(' '))].join(' ')
}

function collect(b, out, seen) {
  if (!b || b === vx_core.e_msgblock || seen.has(b)) return
  seen.add(b)
  const v = b.vx_value || {}
  for (const m of v.msgs || []) out.push('' + ((m.vx_value || {}).code || '') + ((m.vx_value || {}).text || ''))
  for (const c of v.msgblocks || []) collect(c, out, seen)
}

function deep(v, out, seen) {
  if (v === null || typeof v !== 'object') return
  if (v.vx_msgblock) collect(v.vx_msgblock, out, seen)
  if (Array.isArray(v)) v.forEach(x => deep(x, out, seen))
  else if (v.vx_value && typeof v.vx_value === 'object' && v.vx_type !== vx_core.t_type) Object.values(v.vx_value).forEach(x => deep(x, out, seen))
}

function showtop(v) {
  const ms = []
  deep(v, ms, new Set())
  const top = []
  if (v !== null && typeof v === 'object') collect(v.vx_msgblock, top, new Set())
  return ['G', ms.length, ...ms.map(m => 'm' + hex(m)), 'H', top.length, ...top.map(m => 'm' + hex(m)), show(v)].join(' ')
}

function parse(t) {
  const x = t.shift()
  switch (x[0]) {
  case 'i': return parseInt(x.slice(1))
  case 's': return unhex(x.slice(1))
  case 'b': return x[1] === '1'
  case 'f': { // a function that makes an asynchronous call
    const id = parseInt(x.slice(1))
    const arg = parse(t)
    return vx_core.f_new_from_type(vx_core.t_any_from_func_async, async () => globalThis.simleaf(id, arg))
  }
  }
  const type = typeOf(t.shift())
  const n = parseInt(t.shift())
  const vals = []
  for (let i = 0; i < n; i++) {
    if (x[0] !== 'L') vals.push((x[0] === 'R' ? ':' : '') + unhex(t.shift().slice(1)))
    vals.push(parse(t))
  }
  return vx_core.f_new_from_type(type, ...vals)
}

for (const f of ['f_new_from_type', 'f_copy', 'f_msg_from_error', 't_string', 't_stringlist', 't_type']) if (vx_core[f] === undefined) {
  console.error('driver: no ' + f)
  process.exit(70)
}

let st
const emit = s => st.log.push(s)

function choose(n) {
  st.steps++
  if (n <= 1) return 0
  const c = st.at < st.choices.length ? st.choices[st.at] : 0
  st.at++
  return c % n
}

const watch = value => st.watched.push({ value, text: show(value) })

function check() {
  for (const w of st.watched) {
    let now = 'null'
    try {
      now = show(w.value)
    } catch (e) { } // contains itself
    if (now !== w.text) {
      emit('V ' + w.text + ' => ' + now)
      w.text = now
    }
  }
}

const plain = v => typeof v === 'object' ? v.vx_value : v

export function deliver(c) {
  let v = c.value
  const tag = '#' + c.id
  let out = v
  if (typeof v === 'string') out = v + tag
  else if (typeof v === 'number') out = v * 3 + c.id
  else if (typeof v === 'boolean') out = v
  else if (Array.isArray(v)) { if (v.vx_type === vx_core.t_stringlist) out = vx_core.f_copy(v, tag) }
  else if (typeof v.vx_value === 'string') out = { ...v, vx_value: v.vx_value + tag }
  else if (typeof v.vx_value === 'number') out = { ...v, vx_value: v.vx_value * 3 + c.id }
  else if (v.vx_type === sim_prog.t_rec) out = vx_core.f_copy(v, ':a', plain((v.vx_value || {}).a || '') + tag)
  if (c.mode === 1) out = vx_core.f_copy(out, vx_core.f_msg_from_error('leaf' + c.id + ':' + c.text))
  return out
}

globalThis.simleaf = (id, value) => {
  const c = { id, value, text: show(value), k: st.n++, mode: 0 }
  for (const f of st.fails) if (f.id === id && (f.text === '*' || f.text === c.text)) c.mode = f.mode
  emit('S ' + c.k + ' ' + id + ' ' + c.text)
  st.pending.push(c)
  watch(value)
  return new Promise((ok, bad) => { c.ok = ok; c.bad = bad })
}

globalThis.simnote = (what, ok, name, value) => {
  emit(['N', show(what), show(ok), show(name), show(value)].join(' '))
  return true
}

globalThis.simreport = (who, what, name, text, value) => {
  emit(['P', show(who), show(what), show(name), show(text), showtop(value)].join(' '))
  return true
}

// pages: what the programs tell about them and what a user does
const page = libs.find(l => l.f_context_write && l.f_boolean_writeevents_from_ui)
const dom = page && await import('./dom.mjs')

globalThis.simpage = (what, uid, text) => {
  emit(['W', hex(what) || '-', hex(uid) || '-', hex(text) || '-', hex(document.body.children.map(dom.seen).join(''))].join(' '))
  return true
}

globalThis.simfire = (uid, name) => {
  simpage('fire', uid, name)
  const elem = document.getElementById(uid)
  if (elem) {
    elem.dispatchEvent(new dom.Event(name, fn => {
      try {
        fn()
      } catch (e) {
        simpage('error', uid, '' + e.message)
      }
    }))
  }
  simpage('fired', uid, name)
  return true
}

// a page that was just loaded
function newPage() {
  dom.install()
  if (page.vx_global && page.vx_global.listenermap) page.vx_global.listenermap = {}
  for (const l of libs.slice(2)) for (const k of Object.keys(l)) if (k.startsWith('e_') && typeof l[k] === 'object') watch(l[k])
}

const make = (type, ...args) => vx_core.f_new_from_type(vx_core[type], ...args)

// a user who may do these things
const userContext = allow => make('t_context', ':session', make('t_session', ':user', make('t_user', ':security',
  make('t_security', ':allowfuncs', make('t_funclist', ...allow.map(typeOf))))))

// an own state for each run
const newContext = () => vx_core.f_new_from_type(vx_core.t_context, ':state',
  vx_core.f_new_from_type(vx_core.t_state, ':statelistenermap', { vx_type: vx_core.t_statelistenermap, vx_value: {} }))

function finish(i) {
  const [c] = st.pending.splice(i, 1)
  emit('C ' + c.k)
  if (c.mode === 2) c.bad(new Error('leaf' + c.id))
  else {
    const v = deliver(c)
    watch(v)
    c.ok(v)
  }
}

const idle = () => new Promise(r => tick(r))

async function run(line) {
  const t = line.trim().split(/\s+/)
  st = { log: [], pending: [], watched: [], fails: [], choices: [], at: 0, n: 0, steps: 0 }
  const me = st
  const tasks = []
  const context = newContext()
  if (page) newPage()
  for (let n = parseInt(t.shift()); n > 0; n--) {
    const fn = t.shift()
    const hold = parseInt(t.shift())
    const args = []
    for (let k = parseInt(t.shift()); k > 0; k--) {
      if (t[0][0] === '@') {
        const [i, j] = t.shift().slice(1).split('.').map(Number)
        args.push(tasks[i].args[j])
      } else args.push(parse(t))
    }
    const task = { fn, context: [], args }
    if (hold & 4) task.context = [context]
    if (hold & 8) {
      const allow = []
      for (let k = parseInt(t.shift()); k > 0; k--) allow.push(t.shift())
      task.context = [userContext(allow)]
    }
    tasks.push(task)
  }
  for (let n = parseInt(t.shift()); n > 0; n--) {
    const f = { id: parseInt(t.shift()), mode: parseInt(t.shift()) }
    const text = []
    for (let k = parseInt(t.shift()); k > 0; k--) text.push(t.shift())
    f.text = text.join(' ')
    st.fails.push(f)
  }
  for (let n = parseInt(t.shift()); n > 0; n--) st.choices.push(parseInt(t.shift()))
  let started = 0
  while (started < tasks.length || st.pending.length > 0) {
    const nstart = started < tasks.length ? 1 : 0
    const c = choose(nstart + st.pending.length)
    check()
    if (c < nstart) {
      const i = started++
      emit('T ' + i)
      tasks[i].args.forEach(watch)
      try {
        Promise.resolve(libs.find(l => l['f_' + tasks[i].fn])['f_' + tasks[i].fn](...tasks[i].context, ...tasks[i].args)).then(
          v => { if (st === me) { emit('D ' + i + ' ' + showtop(v)); watch(v) } },
          e => { if (st === me) emit('F ' + i + ' m' + hex('' + e.message)) })
      } catch (e) {
        emit('F ' + i + ' m' + hex('' + e.message))
      }
    } else finish(c - nstart)
    await idle()
  }
  await idle()
  check()
  if (page) simpage('end', '', '')
  return st.log.join(';') + ';E ' + st.steps + ' 0 0'
}

process.on('unhandledRejection', e => { if (st) emit('U m' + hex('' + e.message)) })

for await (const line of createInterface({ input: process.stdin })) process.stdout.write(await run(line) + '\n')
