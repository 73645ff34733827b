package sim;

// Runs generated Java programs under a simulated scheduler. Reads one scenario
// per line, writes one history per line. Everything happens on one thread; the
// choices in the scenario decide what happens next.

import com.vxlisp.vx.Core;
import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.lang.reflect.Field;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.CompletableFuture;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.Executor;
import java.util.concurrent.TimeUnit;

public class Driver {

  // A future whose readers run the simulator instead of blocking the thread.
  static class SimFuture<T> extends CompletableFuture<T> {
    @Override public <U> CompletableFuture<U> newIncompleteFuture() { return new SimFuture<U>(); }
    @Override public T get() throws InterruptedException, ExecutionException { until(this); return super.get(); }
    @Override public T get(long t, TimeUnit u) throws InterruptedException, ExecutionException { until(this); return super.get(); }
    @Override public T join() { until(this); return super.join(); }
    @Override public Executor defaultExecutor() { return POOL; }
  }

  static final Executor POOL = r -> Driver.st.jobs.add(r);

  static class Call {
    int id, k, mode;
    Core.Type_any value;
    String text;
    SimFuture<Core.Type_any> future = new SimFuture<>();
  }

  static class Fail { int id, mode; String text; }

  static class Watch {
    Core.Type_any value;
    String text;
  }

  static class State {
    StringBuilder log = new StringBuilder();
    List<Call> pending = new ArrayList<>();
    List<Runnable> jobs = new ArrayList<>();
    List<Fail> fails = new ArrayList<>();
    List<Watch> watched = new ArrayList<>();
    int[] choices = new int[0];
    int at, n, steps;
    boolean disk;
    int choose(int m) {
      steps++;
      if (m <= 1) return 0;
      int c = at < choices.length ? choices[at] : 0;
      at++;
      return c % m;
    }
  }

  static State st;

  static void emit(String s) { st.log.append(s).append(';'); }

  static String hex(String s) {
    StringBuilder o = new StringBuilder();
    for (byte b : s.getBytes(StandardCharsets.UTF_8)) o.append(Character.forDigit((b >> 4) & 15, 16)).append(Character.forDigit(b & 15, 16));
    return o.toString();
  }

  static String unhex(String s) {
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return new String(b, StandardCharsets.UTF_8);
  }

  // a structure field with its empty value is the same as an absent one
  static boolean blank(String s) {
    return s.startsWith("?") || s.equals("s") || s.equals("i0") || s.equals("b0") || s.matches("[LMR] \\S+ 0");
  }

  static String show(Core.Type_any v) {
    if (v == null) return "null";
    if (v instanceof Core.Type_string) return "s" + hex(((Core.Type_string) v).vx_string());
    if (v instanceof Core.Type_int) return "i" + ((Core.Type_int) v).vx_int();
    if (v instanceof Core.Type_boolean) return ((Core.Type_boolean) v).vx_boolean() ? "b1" : "b0";
    StringBuilder o = new StringBuilder();
    String name = v.vx_typedef().name().vx_string();
    if (v instanceof Core.Type_list) {
      List<Core.Type_any> l = ((Core.Type_list) v).vx_list();
      o.append("L ").append(name).append(' ').append(l.size());
      for (Core.Type_any x : l) o.append(' ').append(show(x));
      return o.toString();
    }
    Map<String, Core.Type_any> m;
    if (v instanceof Core.Type_map) {
      m = ((Core.Type_map) v).vx_map();
      o.append("M ");
    } else if (v instanceof Core.Type_struct) {
      m = ((Core.Type_struct) v).vx_map();
      o.append("R ");
    } else return "?" + name;
    TreeMap<String, String> t = new TreeMap<>();
    for (Map.Entry<String, Core.Type_any> e : m.entrySet()) {
      if (e.getValue() == null) continue;
      String k = e.getKey();
      if (k.startsWith(":")) k = k.substring(1);
      String x = show(e.getValue());
      if (v instanceof Core.Type_map || !blank(x)) t.put(hex(k), x);
    }
    o.append(name).append(' ').append(t.size());
    for (Map.Entry<String, String> e : t.entrySet()) o.append(" k").append(e.getKey()).append(' ').append(e.getValue());
    return o.toString();
  }

  static void collect(Core.Type_msgblock b, List<String> out, IdentityHashMap<Object, Object> seen) {
    if (b == null || b == Core.e_msgblock || seen.put(b, b) != null) return;
    for (Core.Type_any m : b.msgs().vx_list()) {
      if (m instanceof Core.Type_msg) out.add(((Core.Type_msg) m).code().vx_string() + ((Core.Type_msg) m).text().vx_string());
    }
    for (Core.Type_any c : b.msgblocks().vx_list()) collect((Core.Type_msgblock) c, out, seen);
  }

  static void deep(Core.Type_any v, List<String> out, IdentityHashMap<Object, Object> seen) {
    if (v == null) return;
    collect(v.vx_msgblock(), out, seen);
    if (v instanceof Core.Type_list) for (Core.Type_any x : ((Core.Type_list) v).vx_list()) deep(x, out, seen);
    else if (v instanceof Core.Type_map) for (Core.Type_any x : ((Core.Type_map) v).vx_map().values()) deep(x, out, seen);
    else if (v instanceof Core.Type_struct) for (Core.Type_any x : ((Core.Type_struct) v).vx_map().values()) deep(x, out, seen);
  }

  static String showtop(Core.Type_any v) {
    List<String> ms = new ArrayList<>();
    deep(v, ms, new IdentityHashMap<>());
    StringBuilder o = new StringBuilder("G " + ms.size());
    for (String m : ms) o.append(" m").append(hex(m));
    ms.clear();
    collect(v.vx_msgblock(), ms, new IdentityHashMap<>());
    o.append(" H ").append(ms.size());
    for (String m : ms) o.append(" m").append(hex(m));
    return o.append(' ').append(show(v)).toString();
  }

  static Class<?>[] packages;
  static Map<String, Method> funcs = new HashMap<>();

  static Core.Type_any type(String n) throws Exception {
    for (Class<?> c : packages) {
      try {
        return (Core.Type_any) c.getField("t_" + n).get(null);
      } catch (NoSuchFieldException e) {
      }
    }
    throw new RuntimeException("no type " + n);
  }

  static Core.Type_any parse(Tokens t) throws Exception {
    String x = t.next();
    switch (x.charAt(0)) {
    case 'i': return Core.vx_new_int(Integer.parseInt(x.substring(1)));
    case 's': return Core.vx_new_string(unhex(x.substring(1)));
    case 'b': return x.charAt(1) == '1' ? Core.c_true : Core.c_false;
    case 'f': // a function that makes an asynchronous call
      final int id = Integer.parseInt(x.substring(1));
      final Core.Type_any arg = parse(t);
      return Core.t_any_from_func_async.vx_fn_new(() -> leaf(id, arg));
    }
    Core.Type_any ty = type(t.next());
    int n = t.num();
    List<Object> vals = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      if (x.charAt(0) != 'L') vals.add(Core.vx_new_string((x.charAt(0) == 'R' ? ":" : "") + unhex(t.next().substring(1))));
      vals.add(parse(t));
    }
    if (n == 0) return ty.vx_empty();
    return ty.vx_new(vals.toArray());
  }

  static void watch(Core.Type_any v) {
    Watch w = new Watch();
    w.value = v;
    w.text = show(v);
    st.watched.add(w);
  }

  static void check() {
    for (Watch w : st.watched) {
      String now = show(w.value);
      if (!now.equals(w.text)) {
        emit("V " + w.text + " => " + now);
        w.text = now;
      }
    }
  }

  static Core.Type_any deliver(Call c) {
    Core.Type_any v = c.value;
    String tag = "#" + c.id;
    Core.Type_any out = v;
    if (v instanceof Core.Type_string) out = Core.vx_new_string(((Core.Type_string) v).vx_string() + tag);
    else if (v instanceof Core.Type_int) out = Core.vx_new_int(((Core.Type_int) v).vx_int() * 3 + c.id);
    else if (v instanceof Core.Type_stringlist) out = v.vx_copy(Core.vx_new_string(tag));
    else if (v instanceof Core.Type_struct && v.vx_typedef().name().vx_string().equals("rec")) {
      String a = ((Core.Type_string) ((Core.Type_struct) v).vx_any(Core.vx_new_string(":a"))).vx_string();
      out = v.vx_copy(Core.vx_new_string(":a"), Core.vx_new_string(a + tag));
    }
    if ((v instanceof Core.Type_string || v instanceof Core.Type_int) && v.vx_msgblock() != Core.e_msgblock) out = out.vx_copy(v.vx_msgblock());
    if (c.mode == 1) out = out.vx_copy(Core.vx_msg_from_error("leaf" + c.id + ":" + c.text));
    return out;
  }

  static CompletableFuture<Core.Type_any> leaf(int id, Core.Type_any value) {
    Call c = new Call();
    c.id = id;
    c.value = value;
    c.text = show(value);
    c.k = st.n++;
    for (Fail f : st.fails) if (f.id == id && (f.text.equals("*") || f.text.equals(c.text))) c.mode = f.mode;
    emit("S " + c.k + " " + id + " " + c.text);
    st.pending.add(c);
    watch(value);
    return c.future;
  }

  static Core.Type_boolean note(Core.Type_string what, Core.Type_boolean ok, Core.Type_string name, Core.Type_any value) {
    emit("N " + show(what) + " " + show(ok) + " " + show(name) + " " + show(value));
    return Core.c_true;
  }

  // an operation of a library and what it did on the disk
  static Core.Type_boolean report(Core.Type_string who, Core.Type_string what, Core.Type_string name, Core.Type_string text, Core.Type_any value) {
    emit("P " + show(who) + " " + show(what) + " " + show(name) + " " + show(text) + " " + showtop(value));
    if (st.disk) {
      try (java.io.FileInputStream f = new java.io.FileInputStream("/sim/.state")) {
        emit("X " + new String(f.readAllBytes(), StandardCharsets.UTF_8));
      } catch (java.io.IOException e) {
        System.err.println("driver: " + e);
        System.exit(70);
      }
    }
    return Core.c_true;
  }

  // an own state for each run, and what the user may do
  static Core.Type_any newContext(List<String> allow) throws Exception {
    if (allow != null) {
      Object[] l = new Object[allow.size()];
      for (int i = 0; i < l.length; i++) l[i] = type(allow.get(i));
      Core.Type_any security = Core.t_security.vx_new(Core.vx_new_string(":allowfuncs"), Core.t_funclist.vx_new(l));
      Core.Type_any user = Core.t_user.vx_new(Core.vx_new_string(":security"), security);
      Core.Type_any session = Core.t_session.vx_new(Core.vx_new_string(":user"), user);
      return Core.t_context.vx_new(Core.vx_new_string(":session"), session);
    }
    Core.Type_any map = Core.e_statelistenermap.getClass().getDeclaredConstructor().newInstance();
    Core.Type_any state = Core.t_state.vx_new(Core.vx_new_string(":statelistenermap"), map);
    return Core.t_context.vx_new(Core.vx_new_string(":state"), state);
  }

  static void finish(int i) {
    Call c = st.pending.remove(i);
    emit("C " + c.k);
    if (c.mode == 2) c.future.completeExceptionally(new RuntimeException("leaf" + c.id));
    else {
      Core.Type_any v = deliver(c);
      watch(v);
      c.future.complete(v);
    }
  }

  // one step of the world other than starting a task
  static boolean step() {
    int n = st.pending.size() + st.jobs.size();
    if (n == 0) return false;
    int c = st.choose(n);
    if (c < st.pending.size()) finish(c);
    else st.jobs.remove(c - st.pending.size()).run();
    return true;
  }

  static void until(CompletableFuture<?> f) {
    while (!f.isDone()) {
      check();
      if (!step()) throw new RuntimeException("waits for ever");
    }
  }

  static class Tokens {
    String[] t;
    int i;
    Tokens(String s) { t = s.trim().split("\\s+"); }
    String next() { return t[i++]; }
    int num() { return Integer.parseInt(t[i++]); }
  }

  static class Task {
    String fn;
    Core.Type_any context;
    Object[] args;
    CompletableFuture<?> future;
  }

  static Object[] with(Core.Type_any context, Object[] args) {
    if (context == null) return args;
    List<Object> l = new ArrayList<>();
    l.add(context);
    for (Object a : args) l.add(a);
    return l.toArray();
  }

  static String cause(Throwable e) {
    while (e.getCause() != null) e = e.getCause();
    return "" + e.getClass().getName() + " " + e.getMessage();
  }

  static String run(String line) throws Exception {
    Tokens t = new Tokens(line);
    st = new State();
    final State me = st;
    Task[] tasks = new Task[t.num()];
    final Core.Type_any context = newContext(null);
    for (int i = 0; i < tasks.length; i++) {
      tasks[i] = new Task();
      tasks[i].fn = t.next();
      int flags = t.num();
      if ((flags & 4) != 0) tasks[i].context = context;
      tasks[i].args = new Object[t.num()];
      for (int k = 0; k < tasks[i].args.length; k++) {
        if (t.t[t.i].charAt(0) == '@') {
          String[] x = t.next().substring(1).split("\\.");
          tasks[i].args[k] = tasks[Integer.parseInt(x[0])].args[Integer.parseInt(x[1])];
        } else tasks[i].args[k] = parse(t);
      }
      if ((flags & 8) != 0) {
        List<String> allow = new ArrayList<>();
        for (int k = t.num(); k > 0; k--) allow.add(t.next());
        tasks[i].context = newContext(allow);
      }
    }
    for (int n = t.num(); n > 0; n--) {
      Fail f = new Fail();
      f.id = t.num();
      f.mode = t.num();
      StringBuilder x = new StringBuilder();
      for (int k = t.num(); k > 0; k--) x.append(x.length() > 0 ? " " : "").append(t.next());
      f.text = x.toString();
      st.fails.add(f);
    }
    st.choices = new int[t.num()];
    for (int i = 0; i < st.choices.length; i++) st.choices[i] = t.num();
    if (t.i < t.t.length) {
      try (java.io.FileOutputStream f = new java.io.FileOutputStream("/sim/.ctl")) {
        f.write(unhex(t.next().substring(1)).getBytes(StandardCharsets.UTF_8));
      }
      st.disk = true;
    }
    int started = 0;
    while (started < tasks.length || st.pending.size() + st.jobs.size() > 0) {
      int nstart = started < tasks.length ? 1 : 0;
      int n = nstart + st.pending.size() + st.jobs.size();
      int c = st.choose(n);
      check();
      if (c < nstart) {
        final int i = started++;
        emit("T " + i);
        for (Object a : tasks[i].args) watch((Core.Type_any) a);
        try {
          tasks[i].future = (CompletableFuture<?>) funcs.get("f_" + tasks[i].fn).invoke(null, with(tasks[i].context, tasks[i].args));
          tasks[i].future.whenComplete((v, e) -> {
            if (st != me) return;
            if (e != null) emit("F " + i + " m" + hex(cause(e)));
            else {
              emit("D " + i + " " + showtop((Core.Type_any) v));
              watch((Core.Type_any) v);
            }
          });
        } catch (InvocationTargetException e) {
          emit("F " + i + " m" + hex(cause(e)));
        }
      } else {
        c -= nstart;
        if (c < st.pending.size()) finish(c);
        else st.jobs.remove(c - st.pending.size()).run();
      }
    }
    check();
    return st.log.toString() + "E " + st.steps + " 0 0";
  }

  @SuppressWarnings("deprecation")
  static void seam() throws Exception {
    Field u = sun.misc.Unsafe.class.getDeclaredField("theUnsafe");
    u.setAccessible(true);
    sun.misc.Unsafe unsafe = (sun.misc.Unsafe) u.get(null);
    Field f = CompletableFuture.class.getDeclaredField("ASYNC_POOL");
    CompletableFuture.completedFuture(0).isDone(); // the class must be set up before its pool is replaced
    unsafe.putObject(unsafe.staticFieldBase(f), unsafe.staticFieldOffset(f), POOL);
  }

  public static void main(String[] args) throws Exception {
    seam();
    PrintStream out = new PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), false, "UTF-8");
    System.setOut(System.err); // what the programs print is not the history
    packages = new Class<?>[args.length];
    for (int i = 0; i < args.length; i++) {
      try {
        packages[i] = Class.forName(args[i]);
      } catch (ClassNotFoundException e) {
        System.err.println("driver: no class " + args[i]);
        System.exit(70);
      }
      for (Method m : packages[i].getMethods()) if (m.getName().startsWith("f_")) funcs.putIfAbsent(m.getName(), m);
    }
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
    for (String line; (line = in.readLine()) != null; ) {
      out.print(run(line) + "\n");
      out.flush();
    }
  }
}
