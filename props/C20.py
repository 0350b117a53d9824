"""Sending by e-mail: who receives what, through which server."""
import email
import io
import mimetypes
import smtplib
import zipfile
from email.message import Message

from sx.harness import H
from sx.fakefs import World, show

OUT = ['ok', 'connect', 'helo', 'refused', 'sender', 'data', 'lost', 'quit']


class Mail:
    """what the SMTP servers of a run were given"""

    def __init__(self, inp, outcome):
        self.inp, self.outcome = inp, outcome
        self.n = 0
        self.log = []            # (server, outcome) of each connection
        self.got = []            # (sender, addresses, message) accepted

    def smtp(mail):
        class SMTP:
            def __init__(self, host='', port=0, *a, **k):
                self.o = mail.outcome(mail.n, host)
                mail.n += 1
                mail.log.append((host, self.o))
                if self.o == 'connect':
                    raise ConnectionRefusedError(111, 'Connection refused')

            def helo(self, name=''):
                if self.o == 'helo':
                    raise smtplib.SMTPHeloError(500, 'no')
                return 250, b'server'
            ehlo = helo

            def ehlo_or_helo_if_needed(self):
                self.helo()

            def sendmail(self, from_addr, to_addrs, msg, mail_options=(), rcpt_options=()):
                self.helo()
                if isinstance(msg, str):
                    msg = msg.encode('ascii')
                if isinstance(to_addrs, str):
                    to_addrs = [to_addrs]
                to_addrs = [a for a in to_addrs]
                if self.o == 'refused':
                    raise smtplib.SMTPRecipientsRefused({a: (550, b'no') for a in to_addrs})
                if self.o == 'sender':
                    raise smtplib.SMTPSenderRefused(550, b'no', from_addr)
                if self.o == 'data':
                    raise smtplib.SMTPDataError(554, b'no')
                if self.o == 'lost':
                    raise smtplib.SMTPServerDisconnected('Connection unexpectedly closed')
                mail.got.append((from_addr, to_addrs, msg))
                return {}

            def send_message(self, msg, from_addr=None, to_addrs=None, *a, **k):
                return self.sendmail(from_addr or msg['From'], to_addrs, msg.as_bytes())

            def quit(self):
                if self.o == 'quit':
                    raise smtplib.SMTPServerDisconnected('Connection unexpectedly closed')
                return 221, b'bye'

            def close(self):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                try:
                    self.quit()
                except smtplib.SMTPServerDisconnected:
                    pass
        return SMTP


def props(n, servers=1, **k):
    return dict(dict(smtp_servers=[f's{i}' for i in range(servers)], sender='me@q', subject='Subject line',
                     recipients=[f'r{i}@x' for i in range(n)], message='Message text'), **k)


def setup(inp, outcome):
    mail = Mail(inp, outcome)
    M = inp.mod('impactutils.transfer.emailsender')
    inp.stub(smtplib, 'SMTP', mail.smtp())
    return M, mail


def text_of(msg):
    for part in msg.walk():
        if not part.is_multipart() and part.get_filename() is None:
            return part.get_payload(decode=True).decode(part.get_content_charset() or 'ascii')


def check_message(inp, m, recips, maxb, primary, subject, text):
    """one accepted message; returns the recipients it reaches"""
    frm, to, raw = m
    msg = email.message_from_bytes(raw)
    inp.check(frm == 'me@q' and msg['From'] == 'me@q' and msg['Subject'] == subject,
              lambda: f'from {frm}, headers {msg.items()}')
    t = text_of(msg)
    inp.check(t is not None and t.rstrip('\r\n') == text, lambda: f'text {t!r}')
    mine = [a for a in to if a in recips]
    extra = [a for a in to if a not in recips and a != '' and a != primary]
    inp.check(not extra, lambda: f'sent to {extra}')
    if maxb == 0:
        inp.check(len(mine) == 1 and msg['To'] == mine[0], lambda: f'individual message to {mine}, headers {msg["To"]}')
    else:
        inp.check(len(mine) <= maxb, lambda: f'{len(mine)} recipients in one message, at most {maxb} allowed')
    for a in recips:
        if maxb or a not in mine:
            inp.check(not any(a in str(v) for v in msg.values()), lambda: f'{a} can be read in the headers: {msg.items()}')
    return mine


def once(inp, mail, recips, maxb, primary=None, subject='Subject line', text='Message text'):
    reached = []
    for m in mail.got:
        reached += check_message(inp, m, recips, maxb, primary, subject, text)
    inp.check(sorted(reached) == sorted(recips), lambda: f'reached {reached}, recipients {recips}')


def batches(inp):
    M, mail = setup(inp, lambda n, h: 'ok')
    w = World(inp)
    try:
        n = int(inp.int('n', 0, inp.p['n']))
        maxb = int(inp.int('max', 0, inp.p['n'] + 2))
        k = {}
        prim = inp.choice('primary', [None, 'all@q'])
        if prim:
            k['primary_recipient'] = prim
        if inp.flag('default'):
            inp.assume(maxb == 0)
            n, maxb = inp.choice('big', [24, 25, 26, 50, 51]), 25
        else:
            k['max_bcc'] = maxb
        p = props(n, **k)
        s = inp.call('ctor', M.EmailSender, properties=p)
        what = inp.choice('what', ['send', 'cancel', 'cancel text'])
        text = 'Message text'
        if what == 'send':
            r = inp.call('send', s.send)
            inp.check(r[0] == 0, lambda: f'{r}')
        elif what == 'cancel':
            inp.call('cancel', s.cancel)
            text = 'This is a cancel message.'
        else:
            inp.call('cancel', s.cancel, cancel_content='Never mind')
            text = 'Never mind'
        inp.reach('sent')
        once(inp, mail, p['recipients'], maxb, prim, text=text)
        inp.check(p['recipients'] == [f'r{i}@x' for i in range(n)], 'the list of recipients was changed')
    finally:
        w.done()


def failover(inp):
    """the first server that accepts a message delivers it, and only that one"""
    outs = {}

    def outcome(n, host):
        if n >= 8:
            inp.fail('too many connections')
        outs[n] = inp.choice(f'o{n}', OUT)
        return outs[n]
    M, mail = setup(inp, outcome)
    w = World(inp)
    try:
        ns, nm = inp.p['servers'], inp.p['messages']
        p = props(nm, servers=ns, max_bcc=0)
        s = inp.call('ctor', M.EmailSender, properties=p)
        what = inp.choice('what', ['send', 'cancel'])
        r, e = inp.raises(getattr(s, what))
        i, want, failed = 0, [], False
        for m in range(nm):
            for sv in range(ns):
                o = outs.get(i)
                inp.check(o is not None, lambda: f'connections {mail.log}: server s{sv} not tried for message {m}')
                inp.check(mail.log[i][0] == f's{sv}', lambda: f'connections {mail.log}')
                i += 1
                if o in ('ok', 'quit'):
                    want.append(f'r{m}@x')
                    break
            else:
                failed = True
                break
        inp.check(len(outs) == i, lambda: f'connections {mail.log}')
        inp.reach('failed' if failed else 'fine')
        got = [a for m in mail.got for a in m[1]]
        inp.check(got == want, lambda: f'delivered to {got}, expected {want}: {mail.log}')
        inp.check((e is not None) == failed, lambda: f'{mail.log}: returned {r!r}, raised {e!r}')
    finally:
        w.done()


def nm(inp, n):
    return inp.string(n, 1, 1, 'ab')


class FakeZip:
    """archives of the model: name and content of each member"""
    made = {}

    def __init__(self, fs, name, mode='r', *a, **k):
        self.fs, self.name, self.members = fs, name, []

    def write(self, filename, arcname=None, *a, **k):
        from sx import shims, calls
        n = shims._py_normpath(arcname if arcname is not None else filename)
        while n[:1] == '/':
            n = n[1:]
        self.members.append((n.split('/'), self.fs.open(filename).read()))

    def close(self):
        key = f'zip{len(self.made)}'
        self.made[key] = self.members
        self.fs.open(self.name, 'w').write(key)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def attach(inp):
    M, mail = setup(inp, lambda n, h: 'ok')
    w = World(inp)
    try:
        names = []
        if inp.symbolic:
            FakeZip.made = {}
            inp.override(zipfile.ZipFile, lambda *a, **k: FakeZip(w.fs, *a, **k))
            inp.override(mimetypes.guess_type, lambda p, *a: (inp.p['mime'], None))
            real_open = w.fs.open

            def op(p, mode='r', *a, **k):
                f = real_open(p, mode, *a, **k)
                if 'b' in mode and 'r' in mode:
                    d = f.read()
                    return io.BytesIO(d if isinstance(d, bytes) else d.encode('utf-8'))
                return f
            inp.override(open, op)
            real_add = Message.add_header

            def add(self, name, value, **k):
                if 'filename' in k:
                    names.append(k['filename'])
                    k['filename'] = f'name{len(names) - 1}'
                return real_add(self, name, value, **k)
            inp.patch(Message, 'add_header', add)
        else:
            inp.patch(mimetypes, 'guess_type', lambda p, *a, **k: (inp.p['mime'], None))
        usedir, usefile, zipped = inp.p['dir'], inp.p['file'], inp.p['zip']
        files = []
        k = {}
        if usedir:
            ld, sub, f1, f2 = nm(inp, 'ld'), nm(inp, 'sub'), nm(inp, 'f1'), nm(inp, 'f2')
            inp.assume(inp.no(f1 == sub))
            top = {'rel': ld, 'dot': './' + ld, 'abs': w.p('cwd', ld), 'slash': ld + '/'}[usedir]
            for parts, c in (([f1], 'one'), ([sub, f2], 'two')):
                w.write(w.p('cwd', ld, *parts), c)
                files.append((parts, c))
            k['local_directory'] = top
        if usefile:
            f3 = nm(inp, 'f3') + '3'
            w.write(w.p('cwd', 'o', f3), 'three')
            files.append(([f3], 'three'))
            k['local_files'] = ['o/' + f3]
        pp = {'zip_file': 'all.zip'} if zipped else {}
        text = inp.choice('text', ['Message text', 'Énergie', 'two\nlines'])
        p = props(2, message=text, max_bcc=inp.choice('max', [0, 2]), **pp)
        s = inp.call('ctor', M.EmailSender, properties=p, **k)
        r = inp.call('send', s.send)
        inp.reach('sent')
        inp.check(r[0] == len(files), lambda: f'{r[0]} files reported, {len(files)} given')
        once(inp, mail, p['recipients'], p['max_bcc'], text=text)
        for frm, to, raw in mail.got:
            msg = email.message_from_bytes(raw)
            att = []
            for part in msg.walk():
                fn = part.get_filename()
                if fn is not None:
                    if inp.symbolic:
                        fn = names[int(fn[4:])]
                    att.append((fn, part.get_payload(decode=True)))
            if zipped:
                inp.check(len(att) == 1 and att[0][0] == 'all.zip', lambda: f'attachments {att}')
                data = att[0][1]
                if inp.symbolic:
                    members = FakeZip.made[data.decode()]
                else:
                    z = zipfile.ZipFile(io.BytesIO(data))
                    members = [(i.filename.split('/'), z.read(i).decode()) for i in z.infolist()]
                want = files
            else:
                members = [([a], c.decode().rstrip('\r\n')) for a, c in att]
                want = [(f[0][-1:], f[1]) for f in files]
            inp.check(len(members) == len(want), lambda: f'{[show(m[0]) for m in members]} attached, expected {[show(f[0]) for f in want]}')
            for parts, c in want:
                hit = [mc for mp, mc in members if len(mp) == len(parts) and inp.all([a == b for a, b in zip(mp, parts)])]
                inp.check(c in hit, lambda: f'{show(parts)} missing: {[show(m[0]) for m in members]}')
        left = w.files(w.base if not inp.symbolic else '/tmp')
        inp.check(not any('all.zip' in str(pp[-1]) for pp, c in left), lambda: f'left behind: {left}')
    finally:
        w.done()


MIME = ['text/plain', 'application/octet-stream', 'image/png', 'audio/basic', 'video/mp4', None]
HARNESSES = [
    H(batches, quick=[dict(n=5)], thorough=[dict(n=9)], bounds='0..5 (9) recipients and every batch size up to two more, and '
      'the default size with 24..51 recipients', reach=['sent'], max_paths=5000),
    H(failover, quick=[dict(servers=2, messages=1), dict(servers=3, messages=1), dict(servers=2, messages=2)],
      thorough=[dict(servers=s, messages=m) for s in (1, 2, 3) for m in (1, 2)],
      bounds='up to 3 servers, up to 2 messages; every connection goes well or fails in one of 7 ways', reach=['failed', 'fine'],
      max_paths=30000),
    H(attach, quick=[dict(dir=d, file=f, zip=z, mime=m) for d, f, z, m in
                     [('rel', 1, 1, None), ('dot', 0, 1, None), ('slash', 0, 1, None), ('abs', 1, 1, None)] +
                     [('rel', 1, 0, m) for m in MIME] + [('rel', 0, 0, None), (0, 1, 0, None), (0, 1, 1, None)]],
      bounds='a directory with a file and a sub-directory, one more file, names of 1 character; six attachment types',
      reach=['sent'], max_paths=4000),
]
ASSUMPTIONS = ['the mail server is a model (smtplib.SMTP replaced) in symbolic runs and replays alike; partially refused '
               'messages are outside the claim', 'local files and archives are modelled in symbolic runs and real in replays',
               'mimetypes.guess_type returns the type the case names']
