// Runs generated C++ programs under a simulated scheduler. Reads one scenario
// per line, writes one history per line. Everything happens on one thread; the
// choices in the scenario decide what happens next.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "sim/prog.hpp"
#include "vx/core.hpp"
#include "sim_driver.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/allocator_interface.h>
static long live = 0;
static void on_malloc(const volatile void*, size_t) { live++; }
static void on_free(const volatile void* p) { if (p) live--; }
#else
static long live = 0;
#endif

typedef vx_core::Type_any Any;

namespace sim {

struct Call {
  int id;
  Any value;          // argument, kept alive while pending
  Any type;
  std::string text;   // argument as it was when the call started
  bool done = false;
  int mode = 0;       // 1 error message, 2 failure
};

struct Fail { int id; int mode; std::string text; };

struct State {
  std::vector<std::shared_ptr<Call>> calls;
  std::vector<int> pending;
  std::vector<long> choices;
  size_t at = 0;
  std::vector<Fail> fails;
  std::string log;
  std::vector<std::pair<Any, std::string>> watched;
  long steps = 0;
  bool hold = false;            // keep what passes by until the end
  bool disk = false;            // a simulated disk is in use
  std::vector<Any> held;
  long choose(long n) {
    steps++;
    if (n <= 1) return 0;
    long c = at < choices.size() ? choices[at] : 0;
    at++;
    return c % n;
  }
};
State* st = nullptr;

static const char* hexd = "0123456789abcdef";
std::string hex(const std::string& s) {
  std::string o;
  for (unsigned char c : s) { o += hexd[c >> 4]; o += hexd[c & 15]; }
  return o;
}
std::string unhex(const std::string& s) {
  std::string o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    o += (char)(v(s[i]) * 16 + v(s[i + 1]));
  }
  return o;
}

std::string show(Any v);

// a structure field with its empty value is the same as an absent one
static bool blank(const std::string& s) {
  if (s[0] == '?' || s == "s" || s == "i0" || s == "b0") return true;
  return (s[0] == 'L' || s[0] == 'M' || s[0] == 'R') && s.find(' ') != s.rfind(' ') && s.compare(s.rfind(' '), std::string::npos, " 0") == 0 && s.find(' ', s.find(' ') + 1) == s.rfind(' ');
}

static std::string showmap(const char* k, const std::string& type, const vx_core::vx_Type_mapany& m) {
  std::string body;
  int n = 0;
  for (auto const& [key, val] : m) {
    if (!val) continue;
    std::string kk = key;
    if (kk.size() && kk[0] == ':') kk = kk.substr(1);
    std::string x = show(val);
    if (k[0] == 'R' && blank(x)) continue;
    body += " k" + hex(kk) + " " + x;
    n++;
  }
  return std::string(k) + " " + type + " " + std::to_string(n) + body;
}

static std::string typname(Any v) {
  vx_core::Type_typedef td = v->vx_typedef();
  std::string name = td->name()->vx_string();
  vx_core::vx_release(td);
  return name;
}

std::string show(Any v) {
  if (!v) return "null";
  if (auto x = dynamic_cast<vx_core::Abstract_string*>(v)) return "s" + hex(x->vx_string());
  if (auto x = dynamic_cast<vx_core::Abstract_int*>(v)) return "i" + std::to_string(x->vx_int());
  if (auto x = dynamic_cast<vx_core::Abstract_boolean*>(v)) return x->vx_boolean() ? "b1" : "b0";
  if (auto x = dynamic_cast<vx_core::Abstract_list*>(v)) {
    vx_core::vx_Type_listany l = x->vx_list();
    std::string o = "L " + typname(v) + " " + std::to_string(l.size());
    for (Any e : l) o += " " + show(e);
    return o;
  }
  if (auto x = dynamic_cast<vx_core::Abstract_map*>(v)) return showmap("M", typname(v), x->vx_map());
  if (auto x = dynamic_cast<vx_core::Abstract_struct*>(v)) return showmap("R", typname(v), x->vx_map());
  return "?" + typname(v);
}

static void collect(vx_core::Type_msgblock b, std::vector<std::string>& out, int depth) {
  if (!b || b == vx_core::e_msgblock || depth > 40) return;
  vx_core::Type_msglist ml = b->msgs();
  for (Any m : ml->vx_list()) {
    auto x = dynamic_cast<vx_core::Abstract_msg*>(m);
    if (x) out.push_back(x->code()->vx_string() + x->text()->vx_string());
  }
  vx_core::Type_msgblocklist bl = b->msgblocks();
  for (Any c : bl->vx_list()) collect(dynamic_cast<vx_core::Abstract_msgblock*>(c), out, depth + 1);
}

static void deep(Any v, std::vector<std::string>& out) {
  if (!v) return;
  collect(v->vx_msgblock(), out, 0);
  if (auto x = dynamic_cast<vx_core::Abstract_list*>(v)) for (Any e : x->vx_list()) deep(e, out);
  else if (auto x = dynamic_cast<vx_core::Abstract_map*>(v)) for (auto const& [k, e] : x->vx_map()) deep(e, out);
  else if (auto x = dynamic_cast<vx_core::Abstract_struct*>(v)) for (auto const& [k, e] : x->vx_map()) deep(e, out);
}

std::string showtop(Any v) {
  std::vector<std::string> ms;
  deep(v, ms);
  std::string o = "G " + std::to_string(ms.size());
  for (auto& m : ms) o += " m" + hex(m);
  ms.clear();
  collect(v->vx_msgblock(), ms, 0);
  o += " H " + std::to_string(ms.size());
  for (auto& m : ms) o += " m" + hex(m);
  return o + " " + show(v);
}

vx_core::vx_Type_async leaf(Any type, vx_core::Type_int id, Any value);

Any parse(std::istringstream& in) {
  std::string t;
  in >> t;
  switch (t[0]) {
  case 'f': {
    // a function that makes an asynchronous call
    long id = atol(t.c_str() + 1);
    Any arg = parse(in);
    return vx_core::t_any_from_func_async->vx_fn_new({arg}, [id, arg]() {
      vx_core::Type_int n = vx_core::vx_new_int(id);
      return leaf(vx_core::t_any, n, arg);
    });
  }
  case 'i': return vx_core::vx_new_int(atol(t.c_str() + 1));
  case 's': return vx_core::vx_new_string(unhex(t.substr(1)));
  case 'b': if (t[1] == '1') return vx_core::c_true; return vx_core::c_false;
  case 'L': {
    std::string type; int n; in >> type >> n;
    vx_core::vx_Type_listany l;
    for (int i = 0; i < n; i++) l.push_back(parse(in));
    Any ty = sim_type(type);
    if (n == 0) return ty->vx_empty();
    return ty->vx_new(l);
  }
  case 'M':
  case 'R': {
    std::string type; int n; in >> type >> n;
    vx_core::vx_Type_listany l;
    for (int i = 0; i < n; i++) {
      std::string k; in >> k;
      l.push_back(vx_core::vx_new_string((t[0] == 'R' ? ":" : "") + unhex(k.substr(1))));
      l.push_back(parse(in));
    }
    Any ty = sim_type(type);
    if (n == 0) return ty->vx_empty();
    return ty->vx_new(l);
  }
  }
  std::cerr << "bad value " << t << std::endl;
  exit(3);
}

void emit(const std::string& s) {
  st->log += s;
  st->log += ";";
}

// what was handed over must still read the same
void check() {
  for (auto& [v, text] : st->watched) {
    std::string now = show(v);
    if (now != text) {
      emit("V " + text + " => " + now);
      text = now;
    }
  }
  if (!st->hold) for (int k : st->pending) {
    auto& c = st->calls[k];
    std::string now = show(c->value);
    if (now != c->text) {
      emit("V " + c->text + " => " + now);
      c->text = now;
    }
  }
}

// keep a value and notice when it changes
void keep(Any v) {
  vx_core::vx_reserve(v);
  st->held.push_back(v);
  st->watched.push_back({v, show(v)});
}

void finish(int idx) {
  int k = st->pending[idx];
  st->pending.erase(st->pending.begin() + idx);
  st->calls[k]->done = true;
  emit("C " + std::to_string(k));
}

// the value a completed call delivers: a fresh value derived from the argument
Any deliver(Call& c) {
  Any v = c.value;
  std::string tag = "#" + std::to_string(c.id);
  Any out;
  if (auto x = dynamic_cast<vx_core::Abstract_string*>(v)) out = vx_core::vx_new_string(x->vx_string() + tag);
  else if (auto x = dynamic_cast<vx_core::Abstract_int*>(v)) out = vx_core::vx_new_int(x->vx_int() * 3 + c.id);
  else if (dynamic_cast<vx_core::Abstract_boolean*>(v)) out = v;
  else out = sim_tag(v, tag);
  if (!out) out = v;
  bool text = dynamic_cast<vx_core::Abstract_string*>(v) || dynamic_cast<vx_core::Abstract_int*>(v);
  if (text && v->vx_msgblock() != vx_core::e_msgblock) out = out->vx_copy(out, {v->vx_msgblock()});
  if (c.mode == 1) {
    vx_core::Type_msg msg = vx_core::vx_msg_from_errortext("leaf" + std::to_string(c.id) + ":" + c.text);
    out = out->vx_copy(out, {msg});
  }
  if (st->hold) keep(out);
  vx_core::vx_release_one_except(v, out);
  c.value = nullptr;
  return out;
}

vx_core::vx_Type_async leaf(Any type, vx_core::Type_int id, Any value) {
  auto c = std::make_shared<Call>();
  c->id = (int)id->vx_int();
  c->value = value;
  c->type = type;
  c->text = show(value);
  vx_core::vx_reserve(value);
  if (st->hold) keep(value);
  vx_core::vx_release(id);
  for (auto& f : st->fails) if (f.id == c->id && (f.text == "*" || f.text == c->text)) c->mode = f.mode;
  int k = (int)st->calls.size();
  st->calls.push_back(c);
  st->pending.push_back(k);
  emit("S " + std::to_string(k) + " " + std::to_string(c->id) + " " + c->text);
  auto fut = new std::future<Any>(std::async(std::launch::deferred, [c, k]() -> Any {
    // the reader waits: other calls may complete first
    while (!c->done) {
      check();
      finish((int)st->choose((long)st->pending.size()));
    }
    if (c->mode == 2) {
      vx_core::vx_release_one(c->value);
      c->value = nullptr;
      throw std::runtime_error("leaf" + std::to_string(c->id));
    }
    return deliver(*c);
  }));
  return vx_core::vx_async_new_from_future(type, fut);
}

vx_core::Type_boolean note(vx_core::Type_string what, vx_core::Type_boolean ok, vx_core::Type_string name, Any value) {
  emit("N s" + hex(what->vx_string()) + " " + show(ok) + " s" + hex(name->vx_string()) + " " + show(value));
  return vx_core::c_true;
}

// an operation of a library and what it did on the disk
vx_core::Type_boolean report(vx_core::Type_string who, vx_core::Type_string what, vx_core::Type_string name, vx_core::Type_string text, Any value) {
  emit("P s" + hex(who->vx_string()) + " s" + hex(what->vx_string()) + " s" + hex(name->vx_string()) + " s" + hex(text->vx_string()) + " " + showtop(value));
  if (st->disk) {
    std::ifstream f("/sim/.state");
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    emit("X " + s);
  }
  return vx_core::c_true;
}

struct Task { std::vector<std::string> allow; bool own = false; std::string fn; std::vector<std::string> args; bool hold; bool drop; vx_core::vx_Type_async async = nullptr; bool done = false; };

std::string run(const std::string& line) {
  std::istringstream in(line);
  State s;
  st = &s;
  int ntask, nfail; long nch;
  in >> ntask;
  std::vector<Task> tasks(ntask);
  std::vector<std::vector<Any>> args(ntask);
  for (auto& t : tasks) {
    int hold, n; in >> t.fn >> hold >> n;
    t.hold = hold & 1;
    t.drop = hold & 2;
    size_t i = &t - &tasks[0];
    if (t.hold) s.hold = true;
    for (int k = 0; k < n; k++) {
      in >> std::ws;
      if (in.peek() == '@') {
        char c, dot; size_t x, y;
        in >> c >> x >> dot >> y;
        args[i].push_back(args[x][y]);
      } else args[i].push_back(parse(in));
    }
    if (hold & 8) {
      t.own = true;
      in >> n;
      for (int k = 0; k < n; k++) { std::string x; in >> x; t.allow.push_back(x); }
    }
  }
  in >> nfail;
  for (int i = 0; i < nfail; i++) {
    Fail f; int n; in >> f.id >> f.mode >> n;
    for (int k = 0; k < n; k++) { std::string x; in >> x; f.text += (k ? " " : "") + x; }
    s.fails.push_back(f);
  }
  in >> nch;
  for (long i = 0; i < nch; i++) { long c; in >> c; s.choices.push_back(c); }
  std::string ctl;
  if (in >> ctl) {
    std::ofstream f("/sim/.ctl");
    f << unhex(ctl.substr(1));
    s.disk = true;
  }
  if (s.hold) for (auto& l : args) for (Any a : l) keep(a);
  std::vector<vx_core::Type_context> contexts;
  contexts.push_back(sim_context({}));
  for (auto& t : tasks) contexts.push_back(t.own ? sim_context(t.allow) : contexts[0]);
  for (auto c : contexts) if (c) vx_core::vx_reserve(c);
  size_t started = 0, finished = 0;
  while (finished < tasks.size()) {
    std::vector<size_t> open;
    for (size_t i = 0; i < started; i++) if (!tasks[i].done) open.push_back(i);
    long nstart = started < tasks.size() ? 1 : 0;
    long n = nstart + (long)s.pending.size() + (long)open.size();
    long c = s.choose(n);
    check();
    if (c < nstart) {
      Task& t = tasks[started];
      emit("T " + std::to_string(started));
      size_t me = started++;
      try {
        t.async = sim_call(t.fn, contexts[1 + me], args[me]);
      } catch (std::exception& e) {
        emit("F " + std::to_string(me) + " m" + hex(e.what()));
        t.done = true; finished++;
      }
      continue;
    }
    c -= nstart;
    if (c < (long)s.pending.size()) { finish((int)c); continue; }
    c -= (long)s.pending.size();
    size_t me = open[c];
    Task& t = tasks[me];
    if (t.drop) {
      // let go of the result without waiting for it
      emit("A " + std::to_string(me));
      vx_core::vx_release_async(t.async);
      t.async = nullptr;
      t.done = true; finished++;
      continue;
    }
    try {
      Any v = vx_core::vx_sync_from_async(vx_core::t_any, t.async);
      t.async = nullptr;
      emit("D " + std::to_string(me) + " " + showtop(v));
      if (s.hold) keep(v); else vx_core::vx_release(v);
    } catch (std::exception& e) {
      emit("F " + std::to_string(me) + " m" + hex(e.what()));
    }
    t.done = true; finished++;
  }
  check();
  while (s.pending.size()) finish(0);
  for (auto& c : s.calls) if (c->value) { vx_core::vx_release_one(c->value); }
  for (Any a : s.held) vx_core::vx_release_one(a);
  for (auto c : contexts) if (c) vx_core::vx_release_one(c);
  std::string log = s.log + "E " + std::to_string(s.steps);
  st = nullptr;
  return log;
}

}  // namespace sim

namespace sim_prog {
vx_core::vx_Type_async sim_leaf(vx_core::Type_any type, vx_core::Type_int id, vx_core::Type_any value) { return sim::leaf(type, id, value); }
vx_core::Type_boolean sim_note(vx_core::Type_string what, vx_core::Type_boolean ok, vx_core::Type_string name, vx_core::Type_any value) { return sim::note(what, ok, name, value); }
vx_core::Type_boolean sim_report(vx_core::Type_string who, vx_core::Type_string what, vx_core::Type_string name, vx_core::Type_string text, vx_core::Type_any value) { return sim::report(who, what, name, text, value); }
}

int main(int argc, char** argv) {
#ifdef SIM_ASAN
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
  sim_init();
  std::ostream out(std::cout.rdbuf());
  std::cout.rdbuf(std::cerr.rdbuf());  // what the programs print is not the history
  std::string line;
  while (std::getline(std::cin, line)) {
    std::string log;
    long ref0 = 0, dref = 0, dlive = 0;
    for (int rep = 0; rep < 3; rep++) {
      log.clear();
      log.shrink_to_fit();
      ref0 = vx_core::refcount;
      long live0 = live;
      {
        std::string l = sim::run(line);
        dref = vx_core::refcount - ref0;
        dlive = live - live0 - (l.capacity() > 15 ? 1 : 0);
        log = l;
      }
      if (dref == 0 && dlive == 0) break;
    }
    out << log << " " << dref << " " << dlive << std::endl;
  }
  return 0;
}
