// Carries out commands, one per line, on the Java bindings' public interface.  Fields are separated by blanks; strings and bytes are
// in hexadecimal, "-" is the empty string and "~" is null.  Each command is answered by a line "=..." (result) or "!Exception".
import com.lightboxtechnologies.lightgrep.*;
import java.io.*;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.*;

public class JavaBind {
  static Map<String, Object> o = new HashMap<>();

  static class Stop extends RuntimeException {}

  static byte[] bytes(String s) {
    if (s.equals("~")) return null;
    if (s.equals("-")) return new byte[0];
    byte[] b = new byte[s.length() / 2];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
    return b;
  }

  static String str(String s) {
    byte[] b = bytes(s);
    return b == null ? null : new String(b, StandardCharsets.UTF_8);
  }

  static String hex(byte[] b) {
    if (b.length == 0) return "-";
    StringBuilder s = new StringBuilder();
    for (byte x : b) s.append(String.format("%02x", x & 0xFF));
    return s.toString();
  }

  static String hex(String s) {
    // unpaired surrogates would become question marks
    for (int i = 0; i < s.length(); ++i) {
      if (Character.isHighSurrogate(s.charAt(i)) && i + 1 < s.length() && Character.isLowSurrogate(s.charAt(i + 1))) ++i;
      else if (Character.isSurrogate(s.charAt(i))) return "surrogate";
    }
    return hex(s.getBytes(StandardCharsets.UTF_8));
  }

  static String info(PatternInfo p) {
    return hex(p.Pattern) + " " + hex(p.EncodingChain) + " " + p.UserIndex;
  }

  static class Acc implements HitCallback {
    StringBuilder s = new StringBuilder();
    int left;
    Acc(int stop) { left = stop; }
    public void callback(SearchHit h) {
      s.append(" ").append(h.Start).append(",").append(h.End).append(",").append(h.KeywordIndex);
      if (--left == 0) throw new Stop();
    }
  }

  // what kind of buffer: a (array), and of ByteBuffers d (direct) w (wrapped) s (slice of a wrapped one) r (read-only) q (read-only, direct)
  static ByteBuffer buffer(char kind, byte[] all, int pos, int lim) {
    ByteBuffer b;
    switch (kind) {
      case 'd':
      case 'q':
        b = ByteBuffer.allocateDirect(all.length);
        b.put(all);
        break;
      case 's':
        byte[] x = new byte[all.length + 3];
        System.arraycopy(all, 0, x, 2, all.length);
        b = ByteBuffer.wrap(x);
        b.position(2);
        b.limit(2 + all.length);
        b = b.slice();
        break;
      default:
        b = ByteBuffer.wrap(all);
    }
    b.clear();
    b.position(pos);
    b.limit(lim);
    return kind == 'r' || kind == 'q' ? b.asReadOnlyBuffer() : b;
  }

  static String search(ContextHandle c, boolean full, String[] f) {
    // search|starts ctx kind bytes offset size limit start stop
    char kind = f[2].charAt(0);
    byte[] all = bytes(f[3]);
    int off = Integer.parseInt(f[4]), size = Integer.parseInt(f[5]), lim = Integer.parseInt(f[6]);
    long start = Long.parseLong(f[7]);
    Acc acc = f[8].equals("~") ? null : new Acc(Integer.parseInt(f[8]));
    int r = 0;
    String ex = "";
    byte[] was = all == null ? null : all.clone();
    ByteBuffer b = kind == 'a' || all == null ? null : buffer(kind, all, off, lim);
    try {
      if (kind == 'a') {
        if (full) r = c.search(all, off, size, start, acc);
        else c.startsWith(all, off, size, start, acc);
      }
      else {
        if (full) r = c.search(b, size, start, acc);
        else c.startsWith(b, size, start, acc);
      }
    }
    catch (Stop e) {
      ex = " stopped";
    }
    if (b != null && (b.position() != off || b.limit() != lim)) ex += " moved";
    if (!Arrays.equals(all, was)) ex += " overwritten";
    return r + acc.s.toString() + ex;
  }

  static String run(String[] f) throws Exception {
    switch (f[0]) {
      case "pattern": o.put(f[1], new PatternHandle()); return "";
      case "fsm": o.put(f[1], new FSMHandle(Integer.parseInt(f[2]), Integer.parseInt(f[3]))); return "";
      case "program": o.put(f[1], new ProgramHandle(Integer.parseInt(f[2]))); return "";
      case "decoder": o.put(f[1], new DecoderHandle()); return "";
      case "parse": {
        KeyOptions k = null;
        if (!f[3].equals("~")) {
          k = new KeyOptions();
          k.FixedString = f[3].charAt(0) == '1';
          k.CaseInsensitive = f[3].charAt(1) == '1';
          k.UnicodeMode = f[3].charAt(2) == '1';
        }
        return "" + ((PatternHandle) o.get(f[1])).parsePattern(str(f[2]), k);
      }
      case "add": return "" + ((FSMHandle) o.get(f[1])).addPattern((PatternHandle) o.get(f[2]), str(f[3]), Integer.parseInt(f[4]));
      case "compile": {
        ProgramOptions p = f[3].equals("~") ? null : new ProgramOptions();
        if (p != null) p.Determinize = f[3].equals("1");
        return "" + ((ProgramHandle) o.get(f[1])).compile((FSMHandle) o.get(f[2]), p);
      }
      case "count": return "" + (o.get(f[1]) instanceof FSMHandle ? ((FSMHandle) o.get(f[1])).count() : ((ProgramHandle) o.get(f[1])).count());
      case "info": {
        int i = Integer.parseInt(f[2]);
        return o.get(f[1]) instanceof FSMHandle ? info(((FSMHandle) o.get(f[1])).getPatternInfo(i)) + " " + ((FSMHandle) o.get(f[1])).getUserIndex(i) :
                                                  info(((ProgramHandle) o.get(f[1])).getPatternInfo(i)) + " " + ((ProgramHandle) o.get(f[1])).getUserIndex(i);
      }
      case "uidx": {
        int i = Integer.parseInt(f[2]);
        return "" + (o.get(f[1]) instanceof FSMHandle ? ((FSMHandle) o.get(f[1])).getUserIndex(i) : ((ProgramHandle) o.get(f[1])).getUserIndex(i));
      }
      case "setuidx": {
        int i = Integer.parseInt(f[2]), u = Integer.parseInt(f[3]);
        if (o.get(f[1]) instanceof FSMHandle) ((FSMHandle) o.get(f[1])).setUserIndex(i, u);
        else ((ProgramHandle) o.get(f[1])).setUserIndex(i, u);
        return "";
      }
      case "size": return "" + ((ProgramHandle) o.get(f[1])).size();
      case "write": {  // write prog length offset: what lies around must stay, what was written is kept under a name
        byte[] b = f[2].equals("~") ? null : new byte[f[2].equals("=") ? ((ProgramHandle) o.get(f[1])).size() + 2 * Integer.parseInt(f[3]) : Integer.parseInt(f[2])];
        int off = Integer.parseInt(f[3]);
        if (b != null) Arrays.fill(b, (byte) 0xA5);
        ((ProgramHandle) o.get(f[1])).write(b, off);
        int n = ((ProgramHandle) o.get(f[1])).size();
        for (int i = 0; i < b.length; ++i)
          if ((i < off || i >= off + n) && b[i] != (byte) 0xA5) return "wrote outside";
        o.put(f[4], Arrays.copyOfRange(b, off, off + n));
        return "" + n;
      }
      case "same": return "" + Arrays.equals((byte[]) o.get(f[1]), (byte[]) o.get(f[2]));
      case "read": {   // read prog image offset [cut]: the image's array is overwritten and dropped
        byte[] img = (byte[]) o.get(f[2]);
        int off = Integer.parseInt(f[3]), cut = Integer.parseInt(f[4]);
        byte[] b = new byte[off + img.length];
        Arrays.fill(b, (byte) 0xA5);
        System.arraycopy(img, 0, b, off, img.length);
        try {
          ProgramHandle p = ProgramHandle.read(b, off, img.length - cut);
          o.put(f[1], p);
        }
        finally {
          Arrays.fill(b, (byte) 0xFF);
        }
        return "";
      }
      case "readraw": ProgramHandle.read(bytes(f[1]), Integer.parseInt(f[2]), Integer.parseInt(f[3])); return "";
      case "context": o.put(f[1], ((ProgramHandle) o.get(f[2])).createContext(f[3].equals("~") ? null : new ContextOptions())); return "";
      case "search": return search((ContextHandle) o.get(f[1]), true, f);
      case "starts": return search((ContextHandle) o.get(f[1]), false, f);
      case "closeout": {
        Acc acc = f[2].equals("~") ? null : new Acc(Integer.parseInt(f[2]));
        String ex = "";
        try {
          ((ContextHandle) o.get(f[1])).closeoutSearch(acc);
        }
        catch (Stop e) {
          ex = " stopped";
        }
        return acc.s.toString().trim() + ex;
      }
      case "reset": ((ContextHandle) o.get(f[1])).reset(); return "";
      case "many": {   // a search with very many hits, none of which is kept
        byte[] b = new byte[Integer.parseInt(f[2])];
        Arrays.fill(b, (byte) 'a');
        long[] n = new long[2];
        HitCallback cb = h -> { ++n[0]; n[1] += h.Start; };
        ContextHandle c = (ContextHandle) o.get(f[1]);
        c.search(b, 0, b.length, 0, cb);
        c.closeoutSearch(cb);
        return n[0] + " " + n[1];
      }
      case "decode": {  // decode dec kind bytes offset size limit start ibegin iend enc window replacement
        DecoderHandle d = (DecoderHandle) o.get(f[1]);
        char kind = f[2].charAt(0);
        byte[] all = bytes(f[3]);
        int off = Integer.parseInt(f[4]), size = Integer.parseInt(f[5]), lim = Integer.parseInt(f[6]);
        long start = Long.parseLong(f[7]), ib = Long.parseLong(f[8]), ie = Long.parseLong(f[9]);
        int win = Integer.parseInt(f[11]), rep = Integer.parseInt(f[12]);
        ByteBuffer b = kind == 'a' || all == null ? null : buffer(kind, all, off, lim);
        HitContext h = kind == 'a' ? LGUtil.getHitContext(d, all, off, size, start, ib, ie, str(f[10]), win, rep) : LGUtil.getHitContext(d, b, size, start, ib, ie, str(f[10]), win, rep);
        return h.Begin + " " + h.End + " " + h.HitBegin + " " + h.HitEnd + " " + h.Bad + " " + hex(h.Decoded) + (b != null && b.position() != off ? " moved" : "");
      }
      case "destroy": ((AutoCloseable) o.get(f[1])).close(); return "";
      case "destroyed": {
        Object h = o.get(f[1]);
        return "" + (h instanceof PatternHandle ? ((PatternHandle) h).isDestroyed() : h instanceof FSMHandle ? ((FSMHandle) h).isDestroyed() :
                     h instanceof ProgramHandle ? ((ProgramHandle) h).isDestroyed() : h instanceof ContextHandle ? ((ContextHandle) h).isDestroyed() : ((DecoderHandle) h).isDestroyed());
      }
      case "drop": o.remove(f[1]); return "";
      case "gc": {   // let what nothing refers to go, and overwrite it
        for (int i = 0; i < 2; ++i) {
          System.gc();
          Thread.sleep(2);
        }
        List<ByteBuffer> l = new ArrayList<>();
        for (int i = 0; i < 64; ++i) {
          ByteBuffer b = ByteBuffer.allocateDirect(8 << (i % 12));
          while (b.hasRemaining()) b.put((byte) 0xFF);
          l.add(b);
        }
        return "" ;
      }
      case "clear":
        for (Object x : o.values()) if (x instanceof AutoCloseable) ((AutoCloseable) x).close();
        o.clear();
        return "";
    }
    throw new Error("command " + f[0]);
  }

  public static void main(String[] args) throws Exception {
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
    PrintStream out = new PrintStream(new BufferedOutputStream(new FileOutputStream(args[0]), 1 << 16), false, "US-ASCII");
    for (String line; (line = in.readLine()) != null;) {
      if (line.equals("flush")) {
        out.flush();
        continue;
      }
      try {
        out.println("=" + run(line.split(" ", -1)));
      }
      catch (Exception e) {
        out.println("!" + e.getClass().getSimpleName());
      }
      catch (OutOfMemoryError e) {
        out.println("!" + e.getClass().getSimpleName());
      }
    }
    out.flush();
  }
}
