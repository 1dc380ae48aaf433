import sys; sys.path.insert(0,'/verif/tools')
from seedlib import *
G='java/pgv-java-grpc/src/main/java/io/envoyproxy/pgv/grpc/'
S,C,X=G+'ValidatingServerInterceptor.java',G+'ValidatingClientInterceptor.java',G+'ValidationExceptions.java'
R='java/pgv-java-stub/src/main/java/io/envoyproxy/pgv/'
DEMO='''syntax = "proto3";
package demo;
option java_package = "demo";
option java_multiple_files = true;
import "validate/validate.proto";
message M { int32 a = 1 [(validate.rules).int32.gt = 3]; message N { int32 b = 1 [(validate.rules).int32.gt = 3]; } }
'''
MAIN='''import com.google.protobuf.Any;
import com.google.rpc.BadRequest;
import demo.M;
import io.envoyproxy.pgv.*;
import io.envoyproxy.pgv.grpc.*;
import io.grpc.*;
import io.grpc.protobuf.StatusProto;
import java.util.*;

public class Main {
  static boolean bad;

  static void same(String name, Object got, Object want) {
    if (got.equals(want)) return;
    System.out.println(name + ": " + got + ", want " + want);
    bad = true;
  }

  static String status(Status s, Metadata t) {
    if (s.isOk()) return "OK";
    String r = s.getCode() + " " + s.getDescription();
    for (Any a : StatusProto.fromStatusAndTrailers(s, t).getDetailsList())
      try {
        for (BadRequest.FieldViolation v : a.unpack(BadRequest.class).getFieldViolationsList()) r += " [" + v.getField() + ": " + v.getDescription() + "]";
      } catch (Exception e) {
        r += " " + e;
      }
    return r;
  }

  /** A call that records what reaches it, and a service behind it. */
  static class Server extends ServerCall<Object, String> {
    final List<String> seen = new ArrayList<>();
    final ServerCall.Listener<Object> l;
    Server(ServerInterceptor i) {
      l = i.interceptCall(this, new Metadata(), (call, h) -> new ServerCall.Listener<Object>() {
        @Override public void onMessage(Object m) {
          seen.add("message " + num(m));
          if (num(m) == 100) throw new UnsupportedOperationException("100");
        }
        @Override public void onHalfClose() { seen.add("half"); }
        @Override public void onCancel() { seen.add("cancel"); }
        @Override public void onComplete() { seen.add("complete"); }
        @Override public void onReady() { seen.add("ready"); }
      });
    }
    @Override public void request(int n) { }
    @Override public void sendHeaders(Metadata h) { }
    @Override public void sendMessage(String m) { }
    @Override public void close(Status s, Metadata m) { seen.add("close " + status(s, m)); }
    @Override public boolean isCancelled() { return false; }
    @Override public MethodDescriptor<Object, String> getMethodDescriptor() { return null; }
    void step(Runnable r) { Main.step(seen, r); }
  }

  static class Client {
    final List<String> seen = new ArrayList<>();
    final ClientCall<Object, String> call;
    Client(ClientInterceptor i) {
      ClientCall<Object, String> net = new ClientCall<Object, String>() {
        @Override public void start(Listener<String> l, Metadata h) { seen.add("start"); }
        @Override public void request(int n) { seen.add("request " + n); }
        @Override public void cancel(String m, Throwable e) { seen.add("cancel"); }
        @Override public void halfClose() { seen.add("half"); }
        @Override public void sendMessage(Object m) { seen.add("message " + num(m)); }
      };
      call = i.interceptCall(new MethodDescriptor<>("m"), CallOptions.DEFAULT, new Channel() {
        @SuppressWarnings("unchecked")
        @Override public <A, B> ClientCall<A, B> newCall(MethodDescriptor<A, B> m, CallOptions o) { return (ClientCall<A, B>) (ClientCall<?, ?>) net; }
        @Override public String authority() { return "a"; }
      });
    }
    void step(Runnable r) { Main.step(seen, r); }
  }

  static void step(List<String> seen, Runnable r) {
    try {
      r.run();
    } catch (StatusRuntimeException e) {
      seen.add("throws " + status(e.getStatus(), e.getTrailers()));
    } catch (RuntimeException e) {
      seen.add("throws " + e);
    }
  }

  static int num(Object m) { return m instanceof M ? ((M) m).getA() : ((M.N) m).getB(); }
  static M m(int a) { return M.newBuilder().setA(a).build(); }
  static M.N n(int b) { return M.N.newBuilder().setB(b).build(); }
  static String err(String f, int v) { return "INVALID_ARGUMENT " + f + ": must be greater than 3 - Got " + v + " [" + f + ": must be greater than 3]"; }

  public static void main(String[] args) {
    ServerInterceptor si = new ValidatingServerInterceptor(new ReflectiveValidatorIndex());
    ClientInterceptor ci = new ValidatingClientInterceptor(new ReflectiveValidatorIndex());
    String unsupported = "throws java.lang.UnsupportedOperationException: 100", A = ".demo.M.a", B = ".demo.M.N.b";
    Server a = new Server(si), b = new Server(si);
    a.step(() -> a.l.onMessage(m(4)));
    b.step(() -> b.l.onMessage(m(100)));
    a.step(() -> a.l.onMessage(m(2)));
    a.step(() -> a.l.onMessage(m(5)));
    a.step(() -> a.l.onHalfClose());
    b.step(() -> b.l.onMessage(n(7)));
    a.step(() -> a.l.onCancel());
    b.step(() -> b.l.onHalfClose());
    b.step(() -> b.l.onComplete());
    same("server a", a.seen, Arrays.asList("message 4", "close " + err(A, 2), "cancel"));
    same("server b", b.seen, Arrays.asList("message 100", unsupported, "message 7", "half", "complete"));
    Server c = new Server(si);
    c.step(() -> c.l.onMessage(m(4)));
    c.step(() -> c.l.onMessage(n(3)));
    c.step(() -> c.l.onComplete());
    same("server c", c.seen, Arrays.asList("message 4", "close " + err(B, 3), "complete"));
    Client d = new Client(ci), e = new Client(ci);
    d.step(() -> d.call.sendMessage(m(5)));
    d.step(() -> d.call.sendMessage(m(3)));
    e.step(() -> e.call.sendMessage(n(3)));
    d.step(() -> d.call.sendMessage(m(7)));
    e.step(() -> e.call.sendMessage(n(7)));
    d.step(() -> d.call.halfClose());
    e.step(() -> e.call.halfClose());
    same("client d", d.seen, Arrays.asList("message 5", "throws " + err(A, 3), "message 7", "half"));
    same("client e", e.seen, Arrays.asList("throws " + err(B, 3), "message 7", "half"));
    System.exit(bad ? 1 : 0);
  }
}
'''
import seedlib
_chmod=os.chmod
def chmod(p,m):
    if p.endswith('demo.sh'): shutil.copy('/tmp/stub.tgz',os.path.dirname(p)+'/stub.tgz')
    _chmod(p,m)
os.chmod=chmod
subprocess.check_call("rm -rf /tmp/gstub && cp -a /verif/harness/java/stub /tmp/gstub && cp -a /verif/harness/java/grpcstub/. /tmp/gstub/ && rm /tmp/gstub/proto/grpccase.proto && tar -C /tmp/gstub --sort=name --mtime=2020-01-01 --owner=0 --group=0 -cf - . | gzip -n > /tmp/stub.tgz && rm -rf /tmp/gstub",shell=True)
def grpc(id,edits,needs,breaks): seed(id,'C28',edits,needs,breaks,demo=open('/verif/tools/grpcdemo.sh').read(),files={'demo.proto':DEMO,'Main.java.txt':MAIN})
grpc('c28-shared-aborted',[(S,'''            private boolean aborted = false;

''',''),(S,'''    private final ValidatorIndex index;
''','''    private final ValidatorIndex index;
    private boolean aborted = false;
''')],
 'two calls through one server interceptor, an invalid message on one of them','the other call is taken for aborted too, and its half-close is lost')
grpc('c28-half-close',[(S,'''                if (!aborted) {
                    super.onHalfClose();
                }''','''                super.onHalfClose();''')],
 'a call that the client ends after an invalid message','the service sees a complete request without the invalid message')
grpc('c28-cancel-dropped',[(S,'''            @Override
            public void onHalfClose() {''','''            @Override
            public void onCancel() {
                if (!aborted) {
                    super.onCancel();
                }
            }

            @Override
            public void onHalfClose() {''')],
 'a call cancelled after an invalid message','the service does not learn of it, and keeps what it holds for the call')
grpc('c28-first-class',[(S,'''            private boolean aborted = false;
''','''            private boolean aborted = false;
            private io.envoyproxy.pgv.Validator<ReqT> validator;
'''),(S,'''                    index.validatorFor(message.getClass()).assertValid(message);
''','''                    if (validator == null) {
                        validator = index.validatorFor(message.getClass());
                    }
                    if (!validator.isValid(message)) {
                        throw new ValidationException("", message, "invalid");
                    }
''')],
 'an invalid message','the status does not name the field')
grpc('c28-client-sends-rest',[(C,'''                try {
                    index.validatorFor(message.getClass()).assertValid(message);
                    super.sendMessage(message);
                } catch (ValidationException ex) {
                    throw ValidationExceptions.asStatusRuntimeException(ex);
                }''','''                try {
                    index.validatorFor(message.getClass()).assertValid(message);
                } catch (ValidationException ex) {
                    super.cancel("invalid message", ex);
                    throw ValidationExceptions.asStatusRuntimeException(ex);
                }
                super.sendMessage(message);''')],
 'a client that goes on with a call after an invalid message','the call is cancelled')
grpc('c28-catch-all',[(S,'''                } catch (ValidationException ex) {
                    StatusRuntimeException status = ValidationExceptions.asStatusRuntimeException(ex);
''','''                } catch (Exception ex) {
                    StatusRuntimeException status = ex instanceof ValidationException ? ValidationExceptions.asStatusRuntimeException((ValidationException) ex) : Status.INTERNAL.withCause(ex).asRuntimeException();
''')],
 'a service that throws in onMessage','the exception is swallowed and the call closed by the interceptor')
grpc('c28-no-description',[(X,'.setField(ex.getField()).setDescription(ex.getReason())','.setField(ex.getField()).setDescription(ex.getMessage())')],
 'an invalid message','the description of the field violation repeats the field and the value instead of the reason')
grpc('c28-client-once',[(C,'''            @Override
            public void sendMessage(ReqT message) {
                try {
                    index.validatorFor(message.getClass()).assertValid(message);
''','''            private Class<?> seen;

            @Override
            public void sendMessage(ReqT message) {
                try {
                    if (seen != message.getClass()) {
                        index.validatorFor(message.getClass()).assertValid(message);
                        seen = message.getClass();
                    }
''')],
 'an invalid message after a valid one of the same type on one client call','it is sent')
