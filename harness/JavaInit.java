// Two threads use classes of the bindings for the first time.  The first is held at the k-th time it asks for a class while the second
// goes as far as it can; then both must finish, and the bindings must work.  Arguments: classA classB first-k last-k classes-path
import java.io.*;
import java.lang.reflect.*;
import java.net.*;
import java.util.concurrent.*;

public class JavaInit {
  static class Loader extends URLClassLoader {
    static { registerAsParallelCapable(); }
    volatile Thread held;
    int k;
    CountDownLatch reached = new CountDownLatch(1), go = new CountDownLatch(1);

    Loader(URL[] u, int k) {
      super(u, ClassLoader.getPlatformClassLoader());
      this.k = k;
    }

    @Override
    protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
      if (Thread.currentThread() == held && name.startsWith("com.lightbox") && k-- == 0) {
        reached.countDown();
        try {
          go.await();
        }
        catch (InterruptedException e) {
        }
      }
      return super.loadClass(name, resolve);
    }
  }

  public static void main(String[] a) throws Exception {
    String pkg = "com.lightboxtechnologies.lightgrep.";
    Loader l = new Loader(new URL[]{ new File(a[3]).toURI().toURL() }, Integer.parseInt(a[2]));
    Throwable[] ex = new Throwable[2];
    Thread[] t = new Thread[2];
    for (int i = 0; i < 2; ++i) {
      final int j = i;
      t[i] = new Thread(() -> {
        try {
          Class.forName(pkg + a[j], true, l);
        }
        catch (Throwable e) {
          ex[j] = e;
        }
        if (j == 0) l.reached.countDown();
      });
      t[i].setDaemon(true);
    }
    l.held = t[0];
    t[0].start();
    l.reached.await();
    boolean wasHeld = l.k < 0;
    t[1].start();
    t[1].join(100);
    l.go.countDown();
    t[0].join(5000);
    t[1].join(5000);
    String r = wasHeld ? "held" : "free";
    for (int i = 0; i < 2; ++i) {
      if (t[i].isAlive()) r += " stuck:" + a[i];
      if (ex[i] != null) r += " " + a[i] + ":" + ex[i];
    }
    if (!r.contains(" ")) {
      // every class in use
      Class<?> jb = Class.forName("JavaBind", true, l);
      Method run = jb.getDeclaredMethod("run", String[].class);
      run.setAccessible(true);
      String[] cmds = { "pattern p", "parse p 6162 010", "fsm f 0 0", "add f p 5554462d38 7", "program g 0", "compile g f 1", "info g 0", "write g = 0 i", "read h i 0 0", "context c h 0",
                        "search c a 784162 0 3 3 0 0", "closeout c 0", "decoder d", "decode d a 784162 0 3 3 0 1 3 5554462d38 1 63" };
StringBuilder s = new StringBuilder();
      for (String c : cmds) {
        String x = (String) run.invoke(null, (Object) c.split(" "));
        s.append(c.startsWith("write") || c.startsWith("search") && x.matches("[0-9]+( 1,3,0)?") ? x.replaceFirst("[0-9]+ ?", "") : c.startsWith("closeout") ? x : x + "|");
      }
      if (!s.toString().equals("|1||0||1|6162 5554462d38 7 7|||1,3,0|0 3 1 3 0 784162|")) r += " got " + s;
    }
    System.out.println("RESULT " + r);
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }
}
