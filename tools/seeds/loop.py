PRE = '''
import threading, socket, time, signal
from sippy.Core.EventDispatcher import ED2
from sippy.Time.Timeout import Timeout
def fail(*a):
    print('FAIL', *a); os._exit(1)
def watchdog(t = 60):
    def f():
        time.sleep(t); print('FAIL: hangs'); os._exit(2)
    threading.Thread(target = f, daemon = True).start()
watchdog()
'''
S = [
 ('loop-periodic-dies', 'E01', [('Core/EventDispatcher.py', "                el.etime.offset(ival)\n                heappush(self.tlisteners, el)\n                cleanup = False\n            else:", "                cleanup = False\n            else:"),
   ('Core/EventDispatcher.py', "                else:\n                    el.cb_func(self.last_ts, *el.cb_params)\n            except Exception as ex:", "                else:\n                    el.cb_func(self.last_ts, *el.cb_params)\n                if not cleanup:\n                    el.etime.offset(ival)\n                    heappush(self.tlisteners, el)\n            except Exception as ex:")],
  'the callback of a periodic timer raises once', 'the timer is never served again', PRE + '''
n = [0]
def tick():
    n[0] += 1
    if n[0] == 2: raise ValueError('once')
t = Timeout(tick, 0.05, -1)
ED2.loop(1.0)
if n[0] < 5: fail(n)
n[0] = 10
t.cancel()
ED2.loop(0.3)
if n[0] > 11: fail('after cancel', n)
'''),
 ('thread-cli-direct', 'E02', [('CLIManager.py', "                ED2.callFromThread(self.clim.handle_cmd, cmd)", "                if len(rbuffer) == 0:\n                    ED2.callFromThread(self.clim.handle_cmd, cmd)\n                else:\n                    # more to come, do not wait for the loop\n                    self.clim.handle_cmd(cmd)")],
  'two commands arrive in one segment of a control connection', 'the first is executed in the thread that reads the connection', PRE + '''
from sippy.CLIManager import CLIManager
a, b = socket.socketpair()
me = threading.get_ident()
got = []
def cmd(clim, c): got.append((c, threading.get_ident() == me))
m = CLIManager(a, cmd)
b.sendall(b'one\\ntwo\\n')
ED2.loop(1.0)
b.close()
if sorted(c for c, o in got) != ['one', 'two']: fail(got)
if [c for c, o in got if not o]: fail(got)
'''),
 ('lock-failed-setup', 'E03', [('Rtp/Singletons.py', "    with _rtp_proc_lock:\n        if _rtp_proc_singleton is None:\n            _rtp_proc_singleton = RtpProc()\n        _rtp_proc_refcount += 1\n        return _rtp_proc_singleton", "    _rtp_proc_lock.acquire()\n    if _rtp_proc_singleton is None:\n        _rtp_proc_singleton = RtpProc()\n    _rtp_proc_refcount += 1\n    _rtp_proc_lock.release()\n    return _rtp_proc_singleton")],
  'the first start of the RTP processing thread fails', 'every later attempt hangs on the lock left taken', PRE + '''
import types
for name in ('rtpsynth', 'rtpsynth.RtpServer', 'rtpsynth.RtpProc', 'rtpsynth.RtpSynth', 'rtpsynth.RtpJBuf', 'rtpsynth.RtpUtils'):
    if name not in sys.modules:
        m = types.ModuleType(name); m.__path__ = []
        m.RtpServer = m.RtpProc = object
        sys.modules[name] = m
import importlib.util
import sippy
spec = importlib.util.spec_from_file_location('singletons_under_test', os.path.join(os.path.dirname(sippy.__file__), 'Rtp', 'Singletons.py'))
sg = importlib.util.module_from_spec(spec); spec.loader.exec_module(sg)
n = [0]
class Proc:
    def __init__(self):
        n[0] += 1
        if n[0] == 1: raise OSError('cannot start')
    def shutdown(self): pass
sg.RtpProc = Proc
try:
    sg.acquire_rtp_proc()
except OSError: pass
else: fail('no error')
res = []
t = threading.Thread(target = lambda: res.append(sg.acquire_rtp_proc()), daemon = True)
t.start(); t.join(3)
if not res: fail('second attempt hangs')
sg.release_rtp_proc(res[0])
'''),
 ('worker-udp-receiver-gone', 'E04', [('Udp_server.py', "            except Exception:\n                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())\n                sleep(1)\n                continue\n            if", "            except Exception:\n                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())\n                break\n            if"),
   ('Udp_server.py', "                if why.errno in (EINTR,):\n                    continue\n                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())\n                continue", "                if why.errno in (EINTR,):\n                    continue\n                if why.errno == ECONNREFUSED:\n                    # ICMP port unreachable\n                    break\n                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % getpid())\n                continue"),
   ('Udp_server.py', "from errno import ", "from errno import ECONNREFUSED, ")],
  'an ICMP error is reported on the socket while receiving', 'the receiver thread ends and no message is received any more', PRE + '''
import errno
from sippy.Udp_server import Udp_server, Udp_server_opts
script = [(b'one', ('127.0.0.1', 1)), OSError(errno.ECONNREFUSED, 'x'), (b'two', ('127.0.0.1', 1)), OSError(errno.EBADF, 'x')]
class Skt:
    def __init__(self, s): self.s = s
    def recvfrom(self, n):
        x = script.pop(0) if script else OSError(errno.EBADF, 'x')
        if isinstance(x, Exception): raise x
        return x
    def __getattr__(self, n): return getattr(self.s, n)
import sippy.Udp_server as us
real = us.socket.socket
class Mod:
    def __getattr__(self, n): return getattr(socket, n)
    def socket(self, *a): return Skt(socket.socket(*a))
us.socket = Mod()
us.Udp_server_opts.nworkers = 1
got = []
o = Udp_server_opts(('127.0.0.1', 0), lambda data, address, server, rtime: got.append(data))
s = Udp_server({}, o)
ED2.loop(1.0)
if got != [b'one', b'two']: fail(got)
'''),
 ('timer-lost-by-cleanup', 'E05', [('Core/EventDispatcher.py', "                self.tlisteners = [x for x in self.tlisteners if x.cb_func != None]\n                heapify(self.tlisteners)\n                self.twasted = 0", "                self.tlisteners.sort()\n                while self.twasted > 0 and self.tlisteners[-1].cb_func == None:\n                    self.tlisteners.pop()\n                    self.twasted -= 1\n                del self.tlisteners[:self.twasted]\n                self.twasted = 0")],
  'most timers are cancelled, and those not the ones due last', 'a timer still wanted is thrown away with the cancelled ones', PRE + '''
got = []
ts = [Timeout(lambda i = i: got.append(i), 0.1 + i * 0.02, 1) for i in range(10)]
for i in (2, 3, 4, 6, 7, 8): ts[i].cancel()
ED2.loop(0.8)
if got != [0, 1, 5, 9]: fail(got)
'''),
]
