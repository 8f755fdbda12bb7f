#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, the rules as the checks state them
(evidence/*.json of the last runs) and the list of planted bugs."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(ROOT + '/tools/design_head.md').read()
TAIL = open(ROOT + '/tools/design_tail.md').read()
FAM = [
 ('C', 'Call legs', '''Interpretation of the leg classes (`UA`, the states of both sides) for every state and every stimulus (each request method, response
class, controller event, timer, CANCEL, ACK and media completion). The leg is a symbolic object whose fields follow from a least fixpoint over the
transitions (which timers may be armed, which references may be set). **Oracle:** tables written from the statements (what a phase owes the peer, the controller,
the callbacks). **Bounds:** two callbacks per group, loops unrolled twice, one media hook failure per path. **Excluded as not promised:** `ua.disconnect()`
called on a leg that has ended; a media completion that arrives after the end; requests whose application answer is `None`; the initial state of a called leg gets
only an INVITE. **Cost** 16-25 s each. Tests drive a handful of call flows; the product of states, stimuli, timers and media outcomes is out of their reach.'''),
 ('T', 'Transactions', '''Interpretation of `SipTransactionManager` with one transaction in every situation (state x armed timers, a least fixpoint over all
stimuli), incoming datagrams, the two cache generations and the consumer tables as abstract tables. **Oracle:** RFC 3261 section 17 as far as the statement goes.
**Bounds:** the table holds the transaction looked at and arbitrary others; two registered legs per call identifier. **Excluded:** an application that declines a
non-INVITE request (returns nothing) leaves it pending by design. **Cost** 4-20 s.'''),
 ('I', 'Names, calls and attributes', '''A resolver over the syntax trees of the whole package: scopes, class hierarchy, light type inference where every assignment
agrees. **Oracle:** the language itself. **Not decided:** receivers of unknown class are compared with the set of all methods of that name only.'''),
 ('E', 'Event loop, threads, locks, timers', '''The loop and each worker thread are interpreted with queues of jobs built by the public functions; application
callbacks are opaque and return or raise; one fault per path is injected at any input or output operation. Locks: every function of the modules that use locks is analysed
from an unknown object, with a failure at every call made while a lock is held. **Excluded:** the log writer drops the one message whose log file cannot be opened (by
design); daemon threads at interpreter exit; fairness and latency.'''),
 ('B', 'The back-to-back agent', '''The controller (`b2bua`, accounting, routing, call map, command interface) is interpreted with the legs replaced by what the C rules
establish (one end, callbacks once, events in order); histories of one call are explored to a fixpoint over the controller states. **Oracle:** decision tables from the
documentation of the program (README, comments, usage text). **Excluded:** exceptions while placing an attempt (`placeOriginate`, `po_proc` plug-ins), stale events of an
earlier attempt; B06: a line which is not ASCII closes the connection by design; B07: a call waiting for authorization does not count as up;
B08: media of the RTP profiles the program knows (`AV_TRTYPES`); a stream refused in an answer is held to the policy as any other; of several formats of one name the first passes.'''),
 ('S', 'Security', '''Byte strings, digests and ciphers are terms with exact cutting and joining; primitives are taken to be what they claim. **Oracle:** RFC 2617/7616/8760
formulas; a nonce model (issue, age, algorithms). **Excluded:** commas inside quoted values of a challenge; qop without nc or cnonce falls back to the legacy form.
S04: texts with hostile characters (line ends, quotes, separators, spaces, control characters) are put at every place of a message that ends up in a request to the helper, a command to a relay or a
line of the list of calls, and what is written is cut up as the receiver would. **Excluded:** names of attributes the configuration gives; what relays and helpers answer is trusted.'''),
 ('M', 'Messages', '''Messages are built from symbolic parts by the constructors of the code, kept as structures, flattened and compared (`sa/wire.py`); sharing is reachability of the same
list, table or object from both. **Excluded:** outbound proxies; a changed Contact in a re-INVITE; a strict router with no Contact in the answer.'''),
 ('R', 'Media relays', '''The client of a relay, the media session and the sides of it are interpreted on texts with symbolic parts (`sa/text.py`); the relay is every answer of a table (usable,
refused, cut short, unreadable, none), sockets keep what is sent, timers run out in their order. R02 compares the description that comes out with the one that went in by the meaning of its lines.
**Oracle:** the RTPproxy command protocol, RFC 4566, the statements. **Bounds:** three media, three updates per session, histories of five events of two commands (R01); R04 runs to a fixpoint of the
states of the watch. **Excluded:** a relay that dies between the questions about its abilities is noted as lacking those unanswered; commands given after shutdown; more than one address in the answer
of a relay. **Cost** 4-35 s.'''),
]


def main():
    props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
    man = json.load(open(ROOT + '/MANIFEST.json'))
    na = {x['property'] if 'property' in x else x['id']: x['reason'] for x in man['not_applicable']}
    seeds = {}
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m = json.load(open(f))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    out = [HEAD.rstrip(), '', '## Properties', '']
    extra = json.load(open(ROOT + '/tools/design_extra.json')) if os.path.exists(ROOT + '/tools/design_extra.json') else {}
    for fam, title, text in FAM:
        ps = [p for p in props if p['id'][0] == fam]
        if not ps:
            continue
        out += ['### %s' % title, '', extra.get(fam, text), '']
        for p in ps:
            i = p['id']
            if i in na:
                out += ['**%s %s.** Not applicable: %s' % (i, p['title'], na[i]), '']
                continue
            try:
                e = json.load(open(ROOT + '/evidence/%s.json' % i))
                c = e['coverage']
                out += ['**%s %s.** %s (%d functions, about %d obligations.)' % (i, p['title'], c['explanation'].replace('\n', ' '), c['functions_analysed'], round(c['obligations'], -2) or c['obligations']), '']
            except FileNotFoundError:
                out += ['**%s %s.**' % (i, p['title']), '']
            out += ['Why not tests: %s' % p['why_tests_cant'], '']
            if i in extra:
                out += [extra[i], '']
    out += ['## Planted bugs', '', 'Each is caught (exit 1, VIOLATION of its property) by the check of the property named; confirmed with `tools/seed.py -c`.', '',
            '| bug | property | needs | breaks |', '|---|---|---|---|']
    for i in sorted(seeds):
        for n, m in seeds[i]:
            out.append('| %s | %s | %s | %s |' % (n, i, m['needs'], m['what_it_breaks']))
    out += ['', TAIL.rstrip(), '']
    open(ROOT + '/DESIGN.md', 'w').write('\n'.join(out))


main()
