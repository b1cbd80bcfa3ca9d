"""C29: sockets. Scripts run as server or client over loopback against Python peers (the oracle: what the peers sent and got)."""
import json, os, random, socket, threading, time

SERVER = r'''
var P = JSON.parse(File.read(console.args[0])), L = [], S = null, bytes = {}, cnt = {}, echo = {};
function hex(d:any) { try { return Util.hexStr(d); } catch(e) { return ""; } } // .length counts characters, not bytes
function onOpen(s:any, info:any) { L.push(["open", info.address]); }
function onClose(s:any, id:any) { L.push(["close", id]); }
function onCloseLast(s:any) { L.push(["last"]); }
function onRecv(s:any, id:any, data:any) {
    L.push(["recv", id, hex(data)]);
    if (P.mode == "echo") { s.send(id, data); }
    if (P.mode == "parts") { s.send(id, "<"); s.send(id, data); s.send(id, ">"); }
    if (P.mode == "all") { s.send(-1, data); }
    if (P.mode == "err" && data.substr(0,3) == "BAD") { throw "callback error"; }
    if (P.mode == "kick" && data.substr(0,3) == "BAD") { s.close(id); }
}
var O = {port:0, timeout:0.01, onOpen:onOpen, onClose:onClose, onCloseLast:onCloseLast, onRecv:onRecv, quiet:true};
if (P.udp) { O.udp = true; }
if (P.noAsync) { O.noAsync = true; }
S = new Socket(O);
File.write(P.port+".t", ""+S.conf("port")); File.rename(P.port+".t", P.port);
var names = null, end = strptime()+60000;
while (!File.exists(P.stop) && strptime()<end) {
    try { if (P.useUpdate) { update({maxPasses:1, minTime:1}); } else { S.update(); } } catch(e) { L.push(["error"]); }
    if (P.ask && File.exists(P.ask) && names===null) { names = S.names(); File.write(P.ask+".ok", "x"); }
}
var st = S.conf("stats");
puts("RESULT"+JSON.stringify({log:L, recvCnt:st.recvCnt, sentCnt:st.sentCnt, connectCnt:S.conf("connectCnt"), names:names}));
'''
CLIENT = r'''
var P = JSON.parse(File.read(console.args[0])), L = [], C = null, got = 0, closed = 0;
function onClose(s:any, id:any) { L.push(["close", id]); closed++; }
function onRecv(s:any, id:any, data:any) { L.push(["recv", id, Util.hexStr(data)]); got += data.length; }
var O = {client:true, port:P.port, timeout:0.01, quiet:true};
if (!P.sync) { O.onRecv = onRecv; O.onClose = onClose; }
if (P.udp) { O.udp = true; }
if (P.noAsync) { O.noAsync = true; }
C = new Socket(O);
var end = strptime()+60000, n = 0;
for (var i=0; i<P.msgs.length; i++) {
    var m = P.msgs[i], d = Util.hexStr(m.hex, true);
    if (m.sync) { C.send(P.id, d, {noAsync:true}); } else { C.send(P.id, d); }
    n++;
    if (m.wait) { if (P.useUpdate) { update({maxPasses:1, minTime:1}); } else { C.update(); } }
    if (m.sleep) { sleep(m.sleep); }
    if (P.sync) { var k = m.hex.length/2, s = ""; while (k>0) { var x = Util.hexStr(C.recv()); s += x; k -= x.length/2; } L.push(["recv", 0, s]); }
}
while (!P.udp && !P.sync && !closed && strptime()<end) { if (P.useUpdate) { update({maxPasses:1, minTime:1}); } else { C.update(); } }
if (P.udp) { for (var q=0; q<10; q++) { C.update(); } }
var st = C.conf("stats");
puts("RESULT"+JSON.stringify({log:L, recvCnt:st.recvCnt, sentCnt:st.sentCnt}));
'''


def content(r, n):
    k = r.random()
    if k < .4: return bytes(r.getrandbits(8) for _ in range(n))
    if k < .7: return bytes(r.choice(b'abc \n\0%s') for _ in range(n))
    return (b'message %d|' % r.randint(0, 999) * (n // 8 + 1))[:n]


def size(r, big=True):
    return r.choice([1, 2, 3, 10, 100, 1000, 4096, 8190, 8191, 8192, 8193, 10000] + ([20000, 60000] if big else []))


def result(ctx, res, kind, txt):
    if res.timeout:
        ctx.violation(kind + ':hang', 'no end within the time limit\n' + txt[:3000], txt); return None
    if not ctx.sanity(res, kind, txt[:3000], txt): return None
    for l in res.text.split('\n'):
        if l.startswith('RESULT'): return json.loads(l[6:])
    ctx.violation(kind + ':stopped', 'no result; status %s: %s' % (res.rc, res.etext[-600:]), txt)


def waitfile(p, t=50):
    end = time.time() + t
    while time.time() < end:
        if os.path.exists(p): return open(p).read()
        time.sleep(.005)


def touch(p): open(p, 'w').close()


def server(ctx, i):
    r = ctx.sub('s%d' % i); d = ctx.mkdir(); P = dict(port=d + '/port', stop=d + '/stop', ask=d + '/ask', mode=r.choice(['none', 'echo', 'echo', 'parts', 'parts', 'all', 'kick', 'err']), useUpdate=r.random() < .5, noAsync=r.random() < .2)
    nc = r.choice([1, 1, 2, 3, 6, 12]); big = P['mode'] in ('none', 'kick', 'err')
    plans = []
    for c in range(nc):
        # a peer that does not read must not be owed more than socket buffers hold
        msgs = [(content(r, size(r, big)), r.choice([0, 0, 0, .001, .01])) for _ in range(r.choice([0, 1, 2, 5, 12]))]
        plans.append(dict(msgs=msgs, start=r.choice([0, 0, .01, .05]), linger=r.choice([0, 0, .02]), bad=P['mode'] in ('kick', 'err') and r.random() < .5, rude=P['mode'] in ('echo', 'parts') and r.random() < .15))
    open(d + '/p.json', 'w').write(json.dumps(P)); txt = 'mode %s %s\n' % (P['mode'], json.dumps([dict(p, msgs=[(len(m), t) for m, t in p['msgs']]) for p in plans])) + SERVER + json.dumps(P)
    out = []
    t = threading.Thread(target=lambda: out.append(ctx.js(SERVER, args=[d + '/p.json'], timeout=100))); t.start()
    port = waitfile(P['port']); got = [b''] * nc; errs = []; inbar = threading.Barrier(nc); donebar = threading.Barrier(nc + 1)
    total = sum(len(m) for p in plans for m, _ in p['msgs'])

    def client(c):
        p = plans[c]
        try:
            time.sleep(p['start']); s = socket.create_connection(('127.0.0.1', int(port)), 30); s.settimeout(40)
            if P['mode'] == 'all': inbar.wait(40); time.sleep(.2)        # all connected and accepted before the first broadcast
            buf = b''; mine = sum(len(m) for m, _ in p['msgs']); want = {'echo': mine, 'all': total}.get(P['mode'], 0)
            rd = []
            def reader():
                b = b''
                try:
                    while True:
                        x = s.recv(65536)
                        if not x: break
                        b += x
                        if P['mode'] in ('echo', 'all') and len(b) >= want or P['mode'] == 'parts' and len(b.replace(b'', b'')) >= 10 ** 9: break
                        rd[:] = [b]
                except socket.timeout: errs.append('client %d: read timed out' % c)
                except OSError: pass
                rd[:] = [b]
            th = threading.Thread(target=reader)
            if P['mode'] != 'none' and not p['rude']: th.start()
            try:
                for m, w in p['msgs']:
                    if w: time.sleep(w)
                    s.sendall(m)
                if p['bad']: time.sleep(.15); s.sendall(b'BAD')
            except OSError:
                if not p['bad']: raise
            if p['rude']:                  # gone without reading the replies
                donebar.wait(60); return s.close() if r.random() < .5 else s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0') or s.close()
            if P['mode'] == 'parts':       # <chunk> for every chunk: wait until all came back
                end = time.time() + 40
                while time.time() < end:
                    b = rd[0] if rd else b''
                    if len(b) >= mine and strip(b, p) is not None: break
                    time.sleep(.01)
            elif P['mode'] in ('echo', 'all') and want: th.join(45)
            elif P['mode'] in ('kick', 'err') and p['bad']: th.join(45)
            time.sleep(p['linger'] + .05)
            got[c] = rd[0] if rd else b''
            donebar.wait(60)
            s.shutdown(socket.SHUT_RDWR); s.close()
            if P['mode'] != 'none': th.join(10)
        except Exception as e:
            errs.append('client %d: %r' % (c, e)); donebar.abort()

    def strip(b, p):
        """b = <chunk><chunk>... whose chunks join to the sent data, for some split"""
        sent = b''.join(m for m, _ in p['msgs']); pos = {0}; 
        # positions in sent after consuming b: walk all splits (dynamic programming over '<' and '>')
        cur = {(0, 0)}; seen = set()
        stack = [(0, 0)]
        while stack:
            bi, si = stack.pop()
            if bi == len(b) and si == len(sent): return True
            if (bi, si) in seen or bi >= len(b) or b[bi:bi + 1] != b'<': continue
            seen.add((bi, si)); bi += 1; k = 0
            # longest common run, then every '>' inside of it can end the chunk
            while True:
                if b[bi + k:bi + k + 1] == b'>' and k > 0: stack.append((bi + k + 1, si + k))
                if si + k < len(sent) and bi + k < len(b) and b[bi + k] == sent[si + k]: k += 1
                else: break
        return None
    ths = []
    if port:
        ths = [threading.Thread(target=client, args=(c,)) for c in range(nc)]
        for x in ths: x.start()
        try:
            if not any(p['bad'] for p in plans):
                time.sleep(.3); touch(P['ask']); waitfile(P['ask'] + '.ok', 10)
            donebar.wait(90)
        except threading.BrokenBarrierError: pass
        for x in ths: x.join(60)
        time.sleep(.3 if P['mode'] != 'err' else .6)
    touch(P['stop']); t.join()
    R = result(ctx, out[0], 'server', txt)
    if not R: return
    if errs: ctx.violation('server:%s: client error' % P['mode'], '%s\n%s' % (errs[:4], txt[:2000]), txt); return
    L = R['log']; by = {}
    for e in L:
        if e[0] == 'recv': by.setdefault(e[1], []).append(bytes.fromhex(e[2]))
    streams = sorted(b''.join(x) for x in by.values())
    sent = sorted(x for x in (b''.join(m for m, _ in p['msgs']) + (b'BAD' if p['bad'] else b'') for p in plans) if x)
    ctx.count('server_recv_events', sum(len(x) for x in by.values())); ctx.count('server_bytes', sum(map(len, sent))); ctx.count('server_connections', nc)

    def bad(key, what): ctx.violation('server:%s: %s' % (P['mode'], key), '%s\n%s' % (what, txt[:2500]), txt)
    if any(p['rude'] for p in plans):
        whole = list(sent)
        for x in list(streams):
            if x in whole: whole.remove(x); streams.remove(x)
        rude = [b''.join(m for m, _ in p['msgs']) for p in plans if p['rude']]
        if any(not any(y.startswith(x) for y in rude) for x in streams) or len(whole) > len(rude): bad('data', 'bytes of a connection differ')
    elif streams != sent: bad('data', 'the bytes got per connection are not those sent: got lengths %s, sent %s' % ([len(x) for x in streams], [len(x) for x in sent]))
    opens = sum(e[0] == 'open' for e in L); closes = [e[1] for e in L if e[0] == 'close']
    if opens != nc: bad('opens', '%d connections, onOpen ran %d times' % (nc, opens))
    kicked = sum(p['bad'] for p in plans) if P['mode'] == 'kick' else 0
    if len(set(closes)) != len(closes) or len(closes) not in ((nc,) if not kicked and P['mode'] != 'err' else (nc, nc - sum(p['bad'] for p in plans))): bad('closes', '%d connections, onClose ran for %s' % (nc, closes))
    if R['recvCnt'] != sum(len(x) for x in by.values()): bad('recvCnt', '%d onRecv calls, recvCnt %s' % (sum(len(x) for x in by.values()), R['recvCnt']))
    if not kicked and P['mode'] != 'err' and R['connectCnt'] != 0: bad('connectCnt', 'all are closed, connectCnt is %s' % R['connectCnt'])
    per = {'echo': 1, 'parts': 3}.get(P['mode'])
    if per and not any(p['rude'] for p in plans) and R['sentCnt'] != per * R['recvCnt']: bad('sentCnt', '%d messages sent, sentCnt %s' % (per * R['recvCnt'], R['sentCnt']))
    for c, p in enumerate(plans):
        mine = b''.join(m for m, _ in p['msgs'])
        if p['rude']: continue
        if P['mode'] == 'echo' and got[c] != mine: bad('echo', 'client %d sent %d bytes and got %d back, different from byte %d' % (c, len(mine), len(got[c]), next((k for k in range(len(mine)) if got[c][k:k + 1] != mine[k:k + 1]), -1)))
        if P['mode'] == 'parts' and strip(got[c], p) is None: bad('order', 'client %d sent %d bytes and got %r' % (c, len(mine), got[c][:80]))
        if P['mode'] == 'all' and total:
            want = b''.join(bytes.fromhex(e[2]) for e in L if e[0] == 'recv')
            if got[c] != want: bad('broadcast', 'client %d got %d of %d bytes' % (c, len(got[c]), len(want)))
    ctx.case(('s', i))
    if len(ctx.samples) < 4: ctx.samples.append(dict(kind='server', mode=P['mode'], clients=nc, bytes=sum(map(len, sent)), recv_events=R['recvCnt'], sent=R['sentCnt']))


def client(ctx, i):
    r = ctx.sub('c%d' % i); d = ctx.mkdir(); sync = r.random() < .25
    msgs = [content(r, size(r, True)) for _ in range(r.choice([1, 2, 3, 6, 15]))]
    ls = socket.socket(); ls.bind(('127.0.0.1', 0)); ls.listen(4); ls.settimeout(60)
    P = dict(port=ls.getsockname()[1], id=r.choice([0, -1]), useUpdate=r.random() < .5, noAsync=sync or r.random() < .2, sync=sync,
             msgs=[dict(hex=m.hex(), wait=not sync and r.random() < .4, sleep=r.choice([0, 0, 0, 2]), sync=False) for m in msgs])
    sent = b''.join(msgs); back = [] if sync else [content(r, size(r, False)) for _ in range(r.choice([0, 1, 4]))]
    open(d + '/p.json', 'w').write(json.dumps(P)); txt = 'client %s\n' % [len(m) for m in msgs] + CLIENT + json.dumps(P)[:3000]
    got = []; errs = []

    def peer():
        try:
            s, _ = ls.accept(); s.settimeout(60); b = b''
            while len(b) < len(sent):
                x = s.recv(r.choice([100, 5000, 65536]))
                if not x: break
                b += x
                if sync: s.sendall(x)
            got.append(b)
            for m in back: s.sendall(m); time.sleep(.002)
            if sync:
                while s.recv(100): pass
            s.close()
        except Exception as e: errs.append(repr(e))
    t = threading.Thread(target=peer); t.start()
    res = ctx.js(CLIENT, args=[d + '/p.json'], timeout=100); t.join(70); ls.close()
    R = result(ctx, res, 'client', txt)
    if not R: return

    def bad(key, what): ctx.violation('client: ' + key, '%s\n%s' % (what, txt[:2500]), txt)
    if errs or not got: bad('peer', 'the peer ended with %s' % errs); return
    if got[0] != sent: bad('sent', 'sent %d bytes in %d messages, the peer got %d, different from byte %d' % (len(sent), len(msgs), len(got[0]), next((k for k in range(len(sent)) if got[0][k:k + 1] != sent[k:k + 1]), -1)))
    rec = b''.join(bytes.fromhex(e[2]) for e in R['log'] if e[0] == 'recv')
    if rec != (sent if sync else b''.join(back)): bad('received', 'the peer sent %d bytes, %d came' % (len(sent if sync else b''.join(back)), len(rec)))
    n = sum(e[0] == 'recv' for e in R['log'])
    if not sync and R['recvCnt'] != n: bad('recvCnt', '%d onRecv calls, recvCnt %s' % (n, R['recvCnt']))
    if not sync and sum(e[0] == 'close' for e in R['log']) != 1: bad('close', 'onClose ran %d times' % sum(e[0] == 'close' for e in R['log']))
    if R['sentCnt'] != len(msgs): bad('sentCnt', '%d messages, sentCnt %s' % (len(msgs), R['sentCnt']))
    ctx.count('client_bytes', len(sent) + len(rec)); ctx.count('client_messages', len(msgs)); ctx.case(('c', i))


def udp(ctx, i):
    r = ctx.sub('u%d' % i); d = ctx.mkdir()
    msgs = [content(r, r.choice([0, 1, 2, 10, 100, 1000, 5000, 8190, 8191, 8192, 9000, 20000, 60000])) for _ in range(r.choice([1, 2, 5]))]
    if i % 2:
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.bind(('127.0.0.1', 0)); s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20); s.settimeout(20)
        msgs = [m for m in msgs if m] or [b'x']
        P = dict(port=s.getsockname()[1], id=r.choice([0, -1]), useUpdate=False, noAsync=r.random() < .5, sync=False, udp=True, msgs=[dict(hex=m.hex(), wait=r.random() < .5, sleep=0, sync=False) for m in msgs])
        open(d + '/p.json', 'w').write(json.dumps(P)); txt = 'udp client %s\n' % [len(m) for m in msgs] + CLIENT
        R = result(ctx, ctx.js(CLIENT, args=[d + '/p.json'], timeout=100), 'udp client', txt)
        if not R: return
        got = []; s.settimeout(1)
        try:
            while True: got.append(s.recv(70000))
        except socket.timeout: pass
        s.close()
        if got != msgs: ctx.violation('udp client: data', 'sent datagrams of %s bytes, the peer got %s' % ([len(m) for m in msgs], [len(m) for m in got]), txt)
        if R['sentCnt'] != len(msgs): ctx.violation('udp client: sentCnt', '%d sent, sentCnt %s' % (len(msgs), R['sentCnt']), txt)
    else:
        P = dict(port=d + '/port', stop=d + '/stop', ask='', mode='none', useUpdate=r.random() < .5, noAsync=False, udp=True)
        open(d + '/p.json', 'w').write(json.dumps(P)); txt = 'udp server %s\n' % [len(m) for m in msgs] + SERVER; out = []
        t = threading.Thread(target=lambda: out.append(ctx.js(SERVER, args=[d + '/p.json'], timeout=100))); t.start()
        port = waitfile(P['port'])
        if port:
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            for m in msgs: s.sendto(m, ('127.0.0.1', int(port))); time.sleep(r.choice([0, .02]))
            time.sleep(.5); s.close()
        touch(P['stop']); t.join(); R = result(ctx, out[0], 'udp server', txt)
        if not R: return
        got = [bytes.fromhex(e[2]) for e in R['log'] if e[0] == 'recv']
        if got != msgs: ctx.violation('udp server: data', 'datagrams of %s bytes were sent, onRecv got %s' % ([len(m) for m in msgs], [len(m) for m in got]), txt)
        if R['recvCnt'] != len(got): ctx.violation('udp server: recvCnt', '%d, recvCnt %s' % (len(got), R['recvCnt']), txt)
    ctx.count('datagrams', len(msgs)); ctx.case(('u', i))


def churn(ctx, i):
    """connections that come and go: each is one id for its whole life, the ids differ, and every reply reaches its sender"""
    r = ctx.sub('k%d' % i); d = ctx.mkdir(); P = dict(port=d + '/port', stop=d + '/stop', ask='', mode='echo', useUpdate=r.random() < .5, noAsync=r.random() < .2)
    open(d + '/p.json', 'w').write(json.dumps(P)); out = []; steps = []; live = []; said = {}; n = 0; bad = None
    t = threading.Thread(target=lambda: out.append(ctx.js(SERVER, args=[d + '/p.json'], timeout=100))); t.start(); port = waitfile(P['port'])
    for k in range(r.choice([8, 15, 30])):
        if bad or not port: break
        op = r.random()
        if not live or op < .35 and len(live) < 6:
            s = socket.create_connection(('127.0.0.1', int(port)), 30); s.settimeout(20); live.append((n, s)); said[n] = []; steps.append('connect %d' % n); n += 1
            if r.random() < .3: continue
            c, s = live[-1]
        elif op < .55:
            c, s = live.pop(r.randrange(len(live))); s.close(); steps.append('close %d' % c); time.sleep(r.choice([0, .02, .05])); continue
        else: c, s = r.choice(live)
        m = b'peer %d says %d;' % (c, k); steps.append('say %d' % c); s.sendall(m); said[c].append(m); b = b''
        try:
            while len(b) < len(m):
                x = s.recv(1000)
                if not x: break
                b += x
        except OSError as e: b += repr(e).encode()
        if b != m: bad = 'peer %d sent %r and got %r back' % (c, m, b)
    time.sleep(.1)
    for c, s in live:
        s.settimeout(.01)
        try: x = s.recv(1000); bad = bad or 'peer %d got %r after all replies' % (c, x)
        except OSError: pass
        s.close()
    time.sleep(.2); touch(P['stop']); t.join(); txt = 'server with peers: %s\n' % ', '.join(steps) + SERVER + json.dumps(P)
    R = result(ctx, out[0], 'churn', txt)
    if not R: return
    if bad: ctx.violation('churn: echo', '%s\n%s' % (bad, txt[:1500]), txt); return
    ids = {}
    for e in R['log']:
        if e[0] == 'recv':
            m = bytes.fromhex(e[2]); c = int(m.split()[1]); ids.setdefault(c, []).append(e[1])
    if any(len(set(x)) != 1 for x in ids.values()): ctx.violation('churn: id changes', 'the ids of one connection: %s\n%s' % (ids, txt[:1500]), txt)
    if len(set(x[0] for x in ids.values())) != len(ids): ctx.violation('churn: id reused', 'the ids of the connections: %s\n%s' % (ids, txt[:1500]), txt)
    closes = [e[1] for e in R['log'] if e[0] == 'close']
    if len(closes) != n or len(set(closes)) != n: ctx.violation('churn: closes', '%d connections, onClose ran for %s\n%s' % (n, closes, txt[:1500]), txt)
    if sum(e[0] == 'open' for e in R['log']) != n: ctx.violation('churn: opens', '%d connections\n%s' % (n, txt[:1500]), txt)
    ctx.count('churn_connections', n); ctx.case(('k', i))


def run(ctx):
    ctx.rule = 'servers and clients written as scripts exchange random messages with Python peers over loopback TCP and UDP, with several connections, chunkings and delays: the bytes at both ends, the callbacks per connection and the counters are compared'
    ctx.assumptions = ['loopback; a peer that does not read is never owed more than socket buffers hold (sends block); no TLS, multicast or IPv6']
    ctx.build('asan')
    n = ctx.size(60, 700)
    jobs = [(server, i) for i in range(n)] + [(client, i) for i in range(n)] + [(udp, i) for i in range(n // 2)] + [(churn, i) for i in range(n)]
    ctx.pmap(lambda j: j[0](ctx, j[1]), jobs)
