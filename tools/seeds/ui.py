UI = '''
import tempfile, shutil, atexit, html
work = tempfile.mkdtemp()
atexit.register(shutil.rmtree, work, True)
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
from weakref import WeakSet
import sippy.UI.Auth as A
import sippy.UI.Controller as m
import sippy.UI.Lib as L
A.AUTH_DIR = work
inside = [0]
class Loop:
    def callFromThreadSync(self, f, *a):
        inside[0] += 1
        try: return f(*a)
        finally: inside[0] -= 1
L.ED2 = Loop()
class Call:
    state, rtp_proxy_session, uaA, uaO = m.CCStateConnected, None, None, None
    def __init__(self, cid): self.cId, self.gone = cid, 0
    def disconnect(self): self.gone += 1
class Calls:
    def __init__(self, *cids): self.ccmap, self.outside, self.log = [Call(x) for x in cids], [], []
    def ask(self, n):
        self.log.append(n)
        if not inside[0]: self.outside.append(n)
    def listActiveCalls(self):
        self.ask('list')
        return tuple((str(c.cId), 'st', ('Connected',), ('Connected',)) for c in self.ccmap)
    def getActiveCalls(self):
        self.ask('get')
        return list(self.ccmap)
    def safeStop(self, **kw): self.ask('stop')
    def safeRestart(self, **kw): self.ask('restart')
def up(*cids):
    """-> (calls, the web application)"""
    u = m.UIController.__new__(m.UIController)
    m.Thread.__init__(u)
    got = []
    def custom(self, make):
        a = make()
        a.run = lambda **kw: got.append(a)
        return a
    cm = Calls(*cids)
    u.app_name, u.kwargs, u.siprec_uas = 'demo', {}, WeakSet()
    u.global_config = {'_cmap': cm, '_siprec_target': 'sip:rec'}
    u.customizer = custom
    u.run()
    return cm, got[0]
def put(c, url, **js): return c.post(url, json = js)
'''
C, L, A = 'UI/Controller.py', 'UI/Lib.py', 'UI/Auth.py'
S = [
    ('ui-setup-memo', 'S05', [(C, "        if Auth.load(self.app_name) is not None:\n            raise UIError('Already configured', 403)\n\n        data = request.get_json()\n", "        if self.configured:\n            raise UIError('Already configured', 403)\n\n        data = request.get_json()\n"),
                              (C, "        self.main_call = main_call = InThreadCaller()\n", "        self.main_call = main_call = InThreadCaller()\n        self.configured = Auth.load(self.app_name) is not None\n")],
     'a user set up since the program was started, the setup asked for again', 'anybody may replace the user set up and log in', UI + '''
cm, app = up()
if put(app.test_client(), '/api/setup', username = 'a', password = 'b').status_code != 200: fail('no setup')
put(app.test_client(), '/api/setup', username = 'evil', password = 'x')
if put(app.test_client(), '/api/login', username = 'evil', password = 'x').status_code == 200: fail('second setup')
if put(app.test_client(), '/api/login', username = 'a', password = 'b').status_code != 200: fail('no login')
'''),
    ('ui-login-memo', 'S05', [(A, "    def verify(self, username, password):\n        return self.hashed == sha256(f\"{username}:{self.salt}:{password}\".encode()).hexdigest()\n", "    verified = set()\n    def verify(self, username, password):\n        if (username, self.salt) in self.verified:\n            return True\n        if self.hashed != sha256(f\"{username}:{self.salt}:{password}\".encode()).hexdigest():\n            return False\n        self.verified.add((username, self.salt))\n        return True\n")],
     'a login by the user, then one with the name and a wrong password', 'after the first login any password is good', UI + '''
cm, app = up()
put(app.test_client(), '/api/setup', username = 'a', password = 'b')
if put(app.test_client(), '/api/login', username = 'a', password = 'c').status_code != 401: fail('wrong password')
if put(app.test_client(), '/api/login', username = 'a', password = 'b').status_code != 200: fail('no login')
if put(app.test_client(), '/api/login', username = 'a', password = 'c').status_code != 401: fail('wrong password after a login')
'''),
    ('ui-api-open', 'S05', [(C, "            if url not in ('/setup', '/api/setup', '/login', '/api/login'):\n", "            if 'name' in meta or 'POST' in methods and url not in ('/api/setup', '/api/login'):\n")],
     'the numbers of calls asked for by somebody who is not logged in', 'they are given', UI + '''
cm, app = up('one')
put(app.test_client(), '/api/setup', username = 'a', password = 'b')
for url in ('/', '/active_calls', '/restart', '/shutdown', '/api/active_stats', '/routing', '/sysconfig'):
    app.test_client().get(url)
for url in ('/api/disconnect', '/api/start_recording', '/api/update_route', '/api/update_sysconfig'):
    put(app.test_client(), url, callid = 'one')
if cm.log or cm.ccmap[0].gone: fail('reached', cm.log)
c = app.test_client()
put(c, '/api/login', username = 'a', password = 'b')
if c.get('/api/active_stats').get_json() != {'connected': 1, 'total': 1}: fail('no numbers')
'''),
    ('ui-recording-thread', 'S05', [(C, "        recording, recordable = self.main_call(bundle)\n", "        recording, recordable = bundle()\n")],
     'the list of calls shown where calls can be recorded', 'the calls are looked at from the thread of the UI while the event loop changes them', UI + '''
cm, app = up('one')
c = app.test_client()
put(c, '/api/setup', username = 'a', password = 'b')
put(c, '/api/login', username = 'a', password = 'b')
for url in ('/', '/active_calls', '/api/active_stats'):
    if c.get(url).status_code != 200: fail(url)
if cm.outside: fail(cm.outside)
'''),
    ('ui-quotes', 'S05', [(L, "    daction = html_escape(row[0], quote=True)\n", "    daction = html_escape(row[0], quote=False)\n")],
     'a call with a double quote in its identifier in the list of calls', 'the caller puts attributes of its own, scripts too, into the page of the operator', UI + '''
cm, app = up('x" onmouseover="alert(1)')
c = app.test_client()
put(c, '/api/setup', username = 'a', password = 'b')
put(c, '/api/login', username = 'a', password = 'b')
page = c.get('/active_calls').get_data(as_text = True)
if html.escape('x" onmouseover="alert(1)') not in page: fail('not listed')
if 'x" onmouseover' in page: fail('not escaped')
'''),
    ('ui-disconnect-one', 'S05', [(C, "        for cc in dlist:\n            cc.disconnect()\n", "        dlist[-1].disconnect()\n")],
     'two calls with the same identifier, one of them asked to be ended', 'the first of them goes on', UI + '''
cm, app = up('one', 'two', 'one')
c = app.test_client()
put(c, '/api/setup', username = 'a', password = 'b')
put(c, '/api/login', username = 'a', password = 'b')
put(c, '/api/disconnect', callid = 'one')
if [x.gone for x in cm.ccmap] != [1, 0, 1]: fail([x.gone for x in cm.ccmap])
'''),
]
