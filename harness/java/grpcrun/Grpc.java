import com.google.protobuf.*;
import com.google.rpc.BadRequest;
import io.envoyproxy.pgv.*;
import io.envoyproxy.pgv.grpc.*;
import io.grpc.*;
import io.grpc.protobuf.StatusProto;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.*;

/**
 * Runs scripts of gRPC calls through the interceptors: one line per script,
 * answered by what each call saw, and what the index says of each message.
 */
public class Grpc {
  static final Metadata.Key<String> HEADER = Metadata.Key.of("x-test", Metadata.ASCII_STRING_MARSHALLER);

  static byte[] unhex(String h) {
    byte[] b = new byte[h.length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(h.substring(2 * i, 2 * i + 2), 16);
    return b;
  }

  static String hex(String s) {
    StringBuilder b = new StringBuilder("x");
    for (byte x : s.replaceAll("java\\.lang\\.Object@[0-9a-f]+", "object").getBytes(StandardCharsets.UTF_8)) b.append(String.format("%02x", x));
    return b.toString();
  }

  static String text(String h) { return new String(unhex(h.substring(1)), StandardCharsets.UTF_8); }

  static String status(Status s, Metadata t) {
    if (s.isOk()) return "OK";
    StringBuilder b = new StringBuilder(s.getCode() + " " + hex(String.valueOf(s.getDescription())));
    com.google.rpc.Status p = StatusProto.fromStatusAndTrailers(s, t);
    b.append(" ").append(p.getCode()).append(" ").append(hex(p.getMessage()));
    for (Any a : p.getDetailsList()) {
      try {
        for (BadRequest.FieldViolation v : a.unpack(BadRequest.class).getFieldViolationsList()) b.append(" ").append(hex(v.getField())).append(":").append(hex(v.getDescription()));
      } catch (InvalidProtocolBufferException e) {
        b.append(" ?").append(e.getMessage());
      }
    }
    return b.toString();
  }

  static class Script {
    final String kind, index;
    final boolean par;
    final List<Object> msgs = new ArrayList<>();
    final Map<Object, Integer> number = new IdentityHashMap<>();
    final List<String> verdicts = new ArrayList<>();
    final String[] ops;
    final int calls;
    final List<List<String>> traces = new ArrayList<>();
    final ValidatorIndex idx;

    Script(String line) throws Exception {
      String[] p = line.split("\t", -1);
      kind = p[0];
      par = p[1].equals("1");
      index = p[2];
      calls = Integer.parseInt(p[3]);
      if (!p[4].isEmpty()) for (String m : p[4].split(";")) {
        String[] q = m.split("=", -1);
        byte[] b = unhex(q[1]);
        Object o;
        switch (q[0]) {
          case "Req": o = grpccase.Req.parseFrom(b); break;
          case "Plain": o = grpccase.Plain.parseFrom(b); break;
          case "In": o = grpccase.Plain.In.parseFrom(b); break;
          case "Off": o = grpccase.Off.parseFrom(b); break;
          case "Ign": o = grpccase.Ign.parseFrom(b); break;
          default: throw new IllegalStateException(q[0]);
        }
        number.put(o, msgs.size());
        msgs.add(o);
        verdicts.add(q[2]);
      }
      ops = p[5].isEmpty() ? new String[0] : p[5].split(",");
      for (int i = 0; i < calls; i++) traces.add(new ArrayList<>());
      switch (index) {
        case "script": idx = new ValidatorIndex() {
          @Override public <T> Validator<T> validatorFor(Class c) {
            return m -> {
              if (m.getClass() != c) throw new IllegalStateException("the validator of " + c + " for a " + m.getClass());
              String v = verdicts.get(number.get(m));
              if (v.equals("boom")) throw new IllegalArgumentException("boom");
              if (!v.equals("ok")) {
                String[] q = v.split(":");
                throw new ValidationException(text(q[0]), text(q[2]), text(q[1]));
              }
            };
          }
        }; break;
        case "reflect": idx = new ReflectiveValidatorIndex(); break;
        case "valid": idx = ValidatorIndex.ALWAYS_VALID; break;
        default: idx = ValidatorIndex.ALWAYS_INVALID; break;
      }
    }

    String direct(Object m) {
      try {
        idx.validatorFor(m.getClass()).assertValid(m);
        return "ok";
      } catch (ValidationException e) {
        return hex(e.getField()) + ":" + hex(e.getReason()) + ":" + hex(String.valueOf(e.getValue())) + ":" + hex(e.getMessage());
      } catch (RuntimeException e) {
        return "boom";
      }
    }

    /** What a call of the network sees, and refuses, as the real one does. */
    class Server extends ServerCall<Object, String> {
      final List<String> t;
      boolean closed;
      Server(int c) { t = traces.get(c); }
      @Override public void request(int n) { t.add("request " + n); }
      @Override public void sendHeaders(Metadata h) { t.add("headers " + h.get(HEADER)); }
      @Override public void sendMessage(String m) {
        if (closed) throw new IllegalStateException("call is closed");
        t.add("reply " + m);
      }
      @Override public void close(Status s, Metadata m) {
        if (closed) throw new IllegalStateException("call already closed");
        closed = true;
        t.add("close " + status(s, m));
      }
      @Override public boolean isCancelled() { return false; }
      @Override public MethodDescriptor<Object, String> getMethodDescriptor() { return new MethodDescriptor<>("m"); }
    }

    class Service implements ServerCallHandler<Object, String> {
      final List<String> t;
      Service(int c) { t = traces.get(c); }
      @Override public ServerCall.Listener<Object> startCall(ServerCall<Object, String> call, Metadata h) {
        t.add("start " + h.get(HEADER));
        call.request(1);
        return new ServerCall.Listener<Object>() {
          @Override public void onMessage(Object m) {
            int i = number.get(m);
            t.add("message " + i);
            call.request(1);
            if (i % 3 == 1) call.sendMessage("r" + i);
            if (i % 5 == 4) throw new UnsupportedOperationException("service " + i);
          }
          @Override public void onHalfClose() {
            t.add("half");
            Metadata m = new Metadata();
            m.put(HEADER, "back");
            call.sendHeaders(m);
            call.close(Status.OK, new Metadata());
          }
          @Override public void onCancel() { t.add("cancel"); }
          @Override public void onComplete() { t.add("complete"); }
          @Override public void onReady() { t.add("ready"); }
        };
      }
    }

    void server(ServerCall.Listener<Object> l, String op) {
      if (op.startsWith("msg")) l.onMessage(msgs.get(Integer.parseInt(op.substring(3))));
      else if (op.equals("half")) l.onHalfClose();
      else if (op.equals("cancel")) l.onCancel();
      else if (op.equals("complete")) l.onComplete();
      else if (op.equals("ready")) l.onReady();
      else throw new IllegalStateException(op);
    }

    class Client extends ClientCall<Object, String> {
      final List<String> t;
      Listener<String> l;
      Client(int c) { t = traces.get(c); }
      @Override public void start(Listener<String> l, Metadata h) { this.l = l; t.add("start " + h.get(HEADER)); }
      @Override public void request(int n) { t.add("request " + n); }
      @Override public void cancel(String m, Throwable e) { t.add("cancel " + m + " " + (e == null ? "null" : e.getMessage())); }
      @Override public void halfClose() { t.add("half"); }
      @Override public void sendMessage(Object m) { t.add("message " + number.get(m)); }
      @Override public boolean isReady() { t.add("ready?"); return t.size() % 2 == 0; }
      @Override public void setMessageCompression(boolean e) { t.add("compression " + e); }
    }

    void client(ClientCall<Object, String> call, Client net, List<String> t, String op) {
      if (op.equals("start")) {
        Metadata h = new Metadata();
        h.put(HEADER, "there");
        call.start(new ClientCall.Listener<String>() {
          @Override public void onMessage(String m) { t.add("got " + m); }
          @Override public void onClose(Status s, Metadata m) { t.add("closed " + s.getCode()); }
        }, h);
      } else if (op.startsWith("send")) call.sendMessage(msgs.get(Integer.parseInt(op.substring(4))));
      else if (op.startsWith("req")) call.request(Integer.parseInt(op.substring(3)));
      else if (op.equals("half")) call.halfClose();
      else if (op.equals("cancel")) call.cancel("why", new RuntimeException("because"));
      else if (op.equals("comp")) call.setMessageCompression(true);
      else if (op.equals("ready")) t.add(String.valueOf(call.isReady()));
      else if (op.equals("reply")) net.l.onMessage("r");
      else if (op.equals("closed")) net.l.onClose(Status.OK, new Metadata());
      else throw new IllegalStateException(op);
    }

    void step(List<String> t, Runnable r) {
      try {
        r.run();
      } catch (StatusRuntimeException e) {
        t.add("throws " + status(e.getStatus(), e.getTrailers()) + " " + hex(e.getMessage()));
      } catch (Throwable e) {
        t.add("throws " + e.getClass().getSimpleName() + " " + e.getMessage());
      }
    }

    String run(ExecutorService pool) throws Exception {
      ValidatingServerInterceptor si = new ValidatingServerInterceptor(idx);
      ValidatingClientInterceptor ci = new ValidatingClientInterceptor(idx);
      List<java.util.function.Consumer<String>> run = new ArrayList<>();
      for (int c = 0; c < calls; c++) {
        List<String> t = traces.get(c);
        if (kind.equals("server")) {
          Metadata h = new Metadata();
          h.put(HEADER, "there");
          ServerCall.Listener<Object> l = si.interceptCall(new Server(c), h, new Service(c));
          run.add(op -> server(l, op));
        } else {
          Client net = new Client(c);
          MethodDescriptor<Object, String> md = new MethodDescriptor<>("m" + c);
          Channel ch = new Channel() {
            @SuppressWarnings("unchecked")
            @Override public <A, B> ClientCall<A, B> newCall(MethodDescriptor<A, B> m, CallOptions o) {
              t.add("call " + m.getFullMethodName() + " " + o.getAuthority());
              return (ClientCall<A, B>) (ClientCall<?, ?>) net;
            }
            @Override public String authority() { return "a"; }
          };
          ClientCall<Object, String> call = ci.interceptCall(md, CallOptions.DEFAULT.withAuthority("auth" + c), ch);
          run.add(op -> client(call, net, t, op));
        }
      }
      List<Callable<Void>> jobs = new ArrayList<>();
      for (int c = 0; c < calls; c++) {
        int me = c;
        jobs.add(() -> {
          for (String o : ops) {
            int i = o.indexOf(':');
            if (Integer.parseInt(o.substring(0, i)) == me) step(traces.get(me), () -> run.get(me).accept(o.substring(i + 1)));
          }
          return null;
        });
      }
      if (par) {
        for (Future<Void> f : pool.invokeAll(jobs)) f.get();
      } else {
        for (String o : ops) {
          int i = o.indexOf(':'), c = Integer.parseInt(o.substring(0, i));
          step(traces.get(c), () -> run.get(c).accept(o.substring(i + 1)));
        }
      }
      StringBuilder b = new StringBuilder();
      for (List<String> t : traces) {
        List<String> u = new ArrayList<>();
        for (String e : t) u.add(e.replaceAll("[|;\\p{Cntrl}]", "?"));
        b.append(String.join("|", u)).append(";");
      }
      b.append("\t");
      for (Object m : msgs) b.append(direct(m)).append(";");
      return b.toString();
    }
  }

  public static void main(String[] a) throws Exception {
    ExecutorService pool = Executors.newFixedThreadPool(4);
    try (BufferedReader r = new BufferedReader(new InputStreamReader(new FileInputStream(a[0]), StandardCharsets.UTF_8));
         Writer w = new OutputStreamWriter(new FileOutputStream(a[1]), StandardCharsets.UTF_8)) {
      for (String line; (line = r.readLine()) != null; ) {
        String out;
        try {
          out = new Script(line).run(pool);
        } catch (Throwable e) {
          StringWriter s = new StringWriter();
          e.printStackTrace(new PrintWriter(s));
          out = "E" + s.toString().replace('\n', ' ').replace('\t', ' ');
        }
        w.write(out + "\n");
        w.flush();
      }
    }
    pool.shutdown();
  }
}
