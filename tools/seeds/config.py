CFG = '''
import tempfile, shutil, atexit
work = tempfile.mkdtemp()
atexit.register(shutil.rmtree, work, True)
def fail(*a):
    print('FAILED:', *a); sys.exit(1)
import sippy.b2bua as m
class Part:
    made = []
    def __init__(self, *a, **kw):
        self.args, self.kw = a, kw
        Part.made.append(self)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return lambda *a, **kw: None
names = ('SipLogger', 'RadiusAuthorisation', 'CallMap', 'B2BSimpleAPI', 'Rtp_proxy_client', 'StatefulProxy', 'SipTransactionManager')
for n in names:
    setattr(m, n, type(n, (Part,), {}))
class Loop:
    def loop(self): pass
m.ED2 = Loop()
def start(*argv):
    """the configuration the program serves with"""
    Part.made = []
    sys.argv = ['b2bua.py', '-f'] + list(argv)
    m.main_func()
    return [x for x in Part.made if type(x).__name__ == 'CallMap'][0].args[0]
def path(n): return os.path.join(work, n)
def write(n, *lines):
    with open(path(n), 'w') as f:
        f.write('[general]\\n' + '\\n'.join(lines) + '\\n')
    return path(n)
'''
C, P, T = 'MyConfigParser.py', 'b2bua.py', 'B2B/Transforms.py'
S = [
    ('cfg-relays-written', 'B09', [(C, """                if self.has_key('rtp_proxy_clients'):
                    self['rtp_proxy_clients'] += ',' + value
                else:
                    self['rtp_proxy_clients'] = value
                return
""", """                self['rtp_proxy_clients'] = value
                return
""")], 'media relays named with -r more than once, the configuration written with -W and read by a later start', 'the relays but the last are not in what is written, a later start does not use them', CFG + '''
start('-r', 'udp:192.0.2.1', '-r', 'udp:192.0.2.2', '-W', path('out'))
start('-C', path('out'))
r = [x.kw.get('spath') for x in Part.made if type(x).__name__ == 'Rtp_proxy_client']
if r != ['udp:192.0.2.1', 'udp:192.0.2.2']: fail(r)
'''),
    ('cfg-acct-level', 'B09', [(P, """            elif acct_level == 1:
                global_config['acct_enable'] = True
                global_config['start_acct_enable'] = False
""", """            elif acct_level == 1:
                global_config['acct_enable'] = True
""")], 'start accounting switched on in the configuration file and -A 1 on the command line', 'the start of calls is still accounted for', CFG + '''
f = write('conf', 'start_acct_enable = on')
a = start('-C', f, '-A', '1')
if a['start_acct_enable'] or not a['acct_enable']: fail('start accounting with -A 1')
if not start('-C', f)['start_acct_enable']: fail('no start accounting')
'''),
    ('cfg-xattrs-lost', 'B09', [(T, """        if cc.extra_attributes is None:
            cc.extra_attributes = extra_attributes
        else:
            cc.extra_attributes.extend(extra_attributes)
""", """        cc.extra_attributes = extra_attributes
"""), (T, """            kvPairs = header.body.body.split(';')
            for pair in kvPairs:""", """            kvPairs = header.body.body.split(';')
            extra_attributes = []
            for pair in kvPairs:""")], 'a request with the header named by HDR2Xattrs more than once', 'only the attributes of the last header reach the authorization', CFG + '''
from sippy.B2B.Transforms import getTransProc
class B: pass
class Req:
    def getHFs(self, name):
        out = []
        for t in ('a=1;b=2', 'c=3'):
            h = B(); h.body = B(); h.body.body = t; out.append(h)
        return out
cc = B(); cc.extra_attributes = None
getTransProc('HDR2Xattrs[x-foo]')(cc, Req())
if sorted(cc.extra_attributes) != [('a', '1'), ('b', '2'), ('c', '3')]: fail(cc.extra_attributes)
'''),
    ('cfg-nat-off', 'B09', [(P, "global_config['_sip_tm'].nat_traversal = global_config.getdefault('nat_traversal', False)", "global_config['_sip_tm'].nat_traversal = 'nat_traversal' in global_config")],
     'the option given to switch it off', 'NAT traversal is on when the configuration says off', CFG + '''
a = start('-C', write('conf', 'nat_traversal = off'))
if a['_sip_tm'].nat_traversal: fail('on')
a = start('-C', write('conf', 'nat_traversal = on'))
if a['_sip_tm'].nat_traversal != True: fail('off')
'''),
    ('cfg-ips-list', 'B09', [(C, "self['_' + key] = [x.strip() for x in value.split(',')]", "self['_' + key] = value.replace(', ', ',').split(',')")], 'a list with more than one space, or with a space before the comma', 'the addresses after it are not accepted, or the media relay is looked for under another name', CFG + '''
a = start('-a', '192.0.2.1 ,192.0.2.2,  192.0.2.3')
if a['_accept_ips'] != ['192.0.2.1', '192.0.2.2', '192.0.2.3']: fail(a['_accept_ips'])
'''),
]
