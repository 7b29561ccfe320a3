import com.wenet.WeTextProcessing.WeTextProcessing;
import java.io.BufferedReader;
import java.io.InputStreamReader;
import java.io.PrintStream;

// Requests and answers are lines; texts travel as the hex of their UTF-16 code units.
public class Drive {
    static native long live();

    static String from(String hex) {
        StringBuilder b = new StringBuilder();
        for (int i = 0; i + 4 <= hex.length(); i += 4) b.append((char) Integer.parseInt(hex.substring(i, i + 4), 16));
        return b.toString();
    }

    static String to(String s) {
        if (s == null) return "null";
        StringBuilder b = new StringBuilder("ok ");
        for (int i = 0; i < s.length(); i++) b.append(String.format("%04x", (int) s.charAt(i)));
        return b.toString();
    }

    public static void main(String[] args) throws Exception {
        System.load(System.getProperty("drive.library"));
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "US-ASCII"));
        PrintStream out = new PrintStream(System.out, true, "US-ASCII");
        for (String line = in.readLine(); line != null; line = in.readLine()) {
            String[] w = line.split(" ", -1);
            String answer;
            try {
                switch (w[0]) {
                    case "init": WeTextProcessing.init(from(w[1])); answer = "ok "; break;
                    case "normalize": answer = to(WeTextProcessing.normalize(from(w[1]))); break;
                    case "inverse": answer = to(WeTextProcessing.inverse_normalize(from(w[1]))); break;
                    case "repeat": {
                        String text = from(w[2]);
                        long before = live();
                        for (int i = 0; i < Integer.parseInt(w[1]); i++) {
                            WeTextProcessing.normalize(text);
                            WeTextProcessing.inverse_normalize(text);
                        }
                        answer = "ok " + (live() - before);
                        break;
                    }
                    default: answer = "unknown";
                }
            } catch (Throwable e) {
                answer = "throw " + e.getClass().getName();
            }
            out.println(answer);
        }
    }
}
