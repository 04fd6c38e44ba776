// Answers the driver's requests with the Android binding's class.
import java.io.*;
import java.util.*;
import xyz.omkar.tokenizers.Tokenizer;

public class Serve {
  static DataInputStream in = new DataInputStream(new BufferedInputStream(new FileInputStream(FileDescriptor.in)));
  static DataOutputStream out = new DataOutputStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out)));

  static String string() throws IOException {
    int n = in.readInt();
    byte[] b = new byte[2 * n];
    in.readFully(b);
    char[] c = new char[n];
    for (int i = 0; i < n; i++) c[i] = (char) ((b[2 * i] & 255) << 8 | b[2 * i + 1] & 255);
    return new String(c);
  }

  static void string(String s) throws IOException {
    byte[] b = new byte[2 * s.length()];
    for (int i = 0; i < s.length(); i++) {
      b[2 * i] = (byte) (s.charAt(i) >> 8);
      b[2 * i + 1] = (byte) s.charAt(i);
    }
    out.writeInt(s.length());
    out.write(b);
  }

  static void ints(int[] a) throws IOException {
    out.writeInt(a.length);
    for (int x : a) out.writeInt(x);
  }

  public static void main(String[] args) throws Exception {
    Map<Integer, Tokenizer> all = new HashMap<>();
    for (int op = in.read(); op >= 0; op = in.read()) {
      int slot = in.readInt();
      String s = op == 'D' ? null : string();
      int[] ids = null;
      if (op == 'D') {
        ids = new int[in.readInt()];
        for (int i = 0; i < ids.length; i++) ids[i] = in.readInt();
      }
      boolean flag = in.read() == 1;
      try {
        if (op == 'P') {
          out.write('p');
        } else if (op == 'N') {
          all.remove(slot);
          all.put(slot, new Tokenizer(s));
          out.write('n');
        } else if (op == 'E') {
          int[] r = all.get(slot).encode(s, flag);
          if (r == null) throw new Exception("null");
          out.write('i');
          ints(r);
        } else {
          int[] before = ids.clone();
          String r = all.get(slot).decode(ids, flag);
          if (r == null) throw new Exception("null");
          out.write(Arrays.equals(before, ids) ? 's' : 'm');
          string(r);
        }
      } catch (Throwable e) {
        out.write('x');
        string(String.valueOf(e));
      }
      out.flush();
    }
    System.exit(0);
  }
}
