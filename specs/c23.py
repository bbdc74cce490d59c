"""C23 - the mail handler: one message per record, on its own connection, with the configured addresses."""
PYVC_TRUSTED = True
import smtplib as real_smtplib

from specs.lib import *

S = 'polog.handlers.smtp.sender:SMTP_sender'
W = 'polog.handlers.smtp.smtp_dependency_wrapper:SMTPDependencyWrapper'
T = [S + '.__init__', S + '.do', S + '.get_content', S + '.get_text', S + '.get_subject', S + '.get_standart_text', S + '.get_standart_subject', W + '.send', W + '.create_smtp_server', W + '.send_mail', W + '.quit_from_server',
     'polog.handlers.abstract.base:BaseHandler.__call__']
ASSUMPTIONS = ['smtplib.SMTP_SSL and email.mime.text.MIMEText are replaced by recording stand-ins (symbolic part); the run-time part uses the real MIMEText and a stand-in for the connection']


class Net:
    """All connections ever made."""
    pv_ghost = True

    def __init__(self, fault=None):
        self.made, self.fault, self.kind, self.once = [], fault, lambda op: OSError(op), False

    def fail(self, op):
        if self.fault == op:
            if self.once:
                self.fault = None
            raise self.kind(op)


KINDS = [lambda op: OSError(op), lambda op: ConnectionResetError(op), lambda op: BrokenPipeError(op), lambda op: TimeoutError(op), lambda op: real_smtplib.SMTPServerDisconnected(op), lambda op: real_smtplib.SMTPConnectError(421, op), lambda op: real_smtplib.SMTPDataError(451, op),
         lambda op: real_smtplib.SMTPRecipientsRefused({}), lambda op: real_smtplib.SMTPAuthenticationError(535, op), lambda op: real_smtplib.SMTPSenderRefused(451, op, 'a'), lambda op: real_smtplib.SMTPHeloError(500, op), lambda op: real_smtplib.SMTPNotSupportedError(op),
         lambda op: ValueError(op), lambda op: UnicodeError(op), lambda op: RuntimeError(op), lambda op: TypeError(op), lambda op: AttributeError(op), lambda op: UserError(op)]


def server_class(net):
    class SMTP_SSL:
        pv_ghost = True

        def __init__(self, host='', port=0, *a, **k):
            net.fail('connect')
            self.address, self.did, self.closed = (host, port), [], False
            net.made.append(self)

        def use(self, op, *a):
            if self.closed:
                raise OSError('please run connect() first')
            self.did.append((op,) + a)
            net.fail(op)

        def login(self, user, password):
            self.use('login', user, password)

        def sendmail(self, sender, to, text, *a, **k):
            self.use('sendmail', sender, to, text)

        def send_message(self, message, from_addr=None, to_addrs=None, *a, **k):
            self.use('sendmail', from_addr or message['From'], to_addrs or message['To'], message.as_string())

        def quit(self):
            self.use('quit')
            self.closed = True

        def close(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *a):
            try:
                self.quit()
            except OSError:
                pass
    return SMTP_SSL


class Text:
    """email.mime.text.MIMEText, remembered."""
    pv_ghost = True

    def __init__(self, text, kind='plain', *a, **k):
        if not isinstance(text, str) and not getattr(type(text), 'pv_type', None) is str:
            raise AttributeError('not a string')
        self.text, self.kind, self.headers = text, kind, []

    def __setitem__(self, k, v):
        self.headers.append((k, v))

    def __getitem__(self, k):
        return dict(self.headers).get(k)

    def as_string(self, *a, **k):
        return self


def install(c, net):
    cls = server_class(net)
    if c.symbolic:
        class smtplib:
            SMTP_SSL = cls
        for name, kind in vars(real_smtplib).items():
            if isinstance(kind, type) and issubclass(kind, Exception):
                setattr(smtplib, name, kind)

        class text:
            MIMEText = Text
        c.setup_stub('smtplib', smtplib)
        c.setup_stub('email.mime.text', text)
    else:
        import smtplib
        import sys
        old, smtplib.SMTP_SSL = smtplib.SMTP_SSL, cls
        for n, m in list(sys.modules.items()):
            if n.startswith('polog'):
                for k, v in list(vars(m).items()):
                    if v is old:
                        setattr(m, k, cls)


def parts(c, message):
    """(text, kind, subject, from, to) of what was sent."""
    if c.symbolic:
        names = [k for k, v in message.headers]
        h = dict(message.headers)
        c.prove('every header once', sorted(names) == ['From', 'Subject', 'To'])
        return message.text, message.kind, h.get('Subject'), h.get('From'), h.get('To')
    import email
    import email.policy
    m = email.message_from_string(message, policy=email.policy.default)
    c.prove('every header once', all(len(m.get_all(k, [])) == 1 for k in ('From', 'Subject', 'To')))
    return m.get_payload(decode=True).decode('utf-8'), m.get_content_subtype(), m['Subject'], m['From'], m['To']


def sender(c, **kw):
    cls = c.get(S)
    data = dict(email_from='From.Me+1@A.b', password='SeCret', smtp_server='smtp.A.b', email_to='To.You@a.B')
    data.update(kw)
    out = c.run(cls, **data)
    c.prove('accepted', out.ok)
    return out.value


def an_item(c, **data):
    item = c.get('polog.core.log_item:LogItem')()
    item.set_data(data)
    return item


def one_mail(c, conn, quit_fails=False):
    ops = [d[0] for d in conn.did]
    c.prove('login, one message, quit', ops == ['login', 'sendmail', 'quit'])
    c.prove('the address of the server', conn.address[0] == 'smtp.A.b')
    c.prove('the configured user', conn.did[0][1:] == ('From.Me+1@A.b', 'SeCret'))
    c.prove('from the configured address to the configured one', conn.did[1][1] == 'From.Me+1@A.b' and conn.did[1][2] in (['To.You@a.B'], 'To.You@a.B', ('To.You@a.B',)))
    return conn.did[1][3]


@contract('C23', T)
def one_message_per_record(c):
    """every record is mailed once on its own connection, with the configured addresses, the text and the subject of the assemblers, plain or html"""
    net = Net()
    install(c, net)
    port = c.int('port', lo=1, hi=65535)
    html = c.choose('html', [False, True])
    own_text, own_subject = c.choose('own text', [False, True]), c.choose('own subject', [False, True])
    texts = ['line one\nline two', 'other text'] if not c.symbolic else [c.str('text 0'), c.str('text 1')]
    subjects = ['subject 0', 'subject 1'] if not c.symbolic else [c.str('subject 0'), c.str('subject 1')]
    seen = []

    def text(log):
        seen.append(('text', log))
        return texts[log['n']]

    def subject(log):
        seen.append(('subject', log))
        return subjects[log['n']]
    alts = []
    h = sender(c, port=port, is_html=html, text_assembler=text if own_text else None, subject_assembler=subject if own_subject else None, alt=alts.append)
    c.prove('no connection before a record', not net.made)
    for n in range(2):
        success = c.choose('success %d' % n, [None, True, False, 'none'])
        item = an_item(c, n=n, **({} if success is None else {'success': None if success == 'none' else success}))
        del seen[:]
        out = c.run(h, item)
        c.prove('never raises', out.ok and not alts)
        c.prove('its own connection', len(net.made) == n + 1)
        conn = net.made[n] if len(net.made) > n else None
        if conn is None:
            return
        c.prove('the port', c.eq(conn.address[1], port))
        t, kind, s, f, to = parts(c, one_mail(c, conn))
        c.prove('closed', conn.closed)
        c.prove('html or plain', kind == ('html' if html else 'plain'))
        c.prove('headers', f == 'From.Me+1@A.b' and to == 'To.You@a.B')
        if own_text:
            c.prove('the text of the assembler', c.eq(t, texts[n]))
        else:
            c.prove('the standard text names every field', t == 'Message from the Polog:\n\n' + '\n'.join('%s = %s' % (k, v) for k, v in item.items()))
        if own_subject:
            c.prove('the subject of the assembler', c.eq(s, subjects[n]))
        else:
            c.prove('the standard subject tells the outcome', s == {None: 'Message from the Polog', 'none': 'Message from the Polog', True: 'Success message from the Polog', False: 'Error message from the Polog'}[success])
        c.prove('the assemblers got the record once', [k for k, x in seen] == ['text'] * own_text + ['subject'] * own_subject and all(x is item for k, x in seen))
    empty = c.get('polog.core.log_item:LogItem')()
    if not own_text and not own_subject:
        c.run(h, empty)
        t = parts(c, one_mail(c, net.made[-1]))[0]
        c.prove('the standard text of an empty record', t == 'Empty message from the Polog.')


@contract('C23', T)
def failures(c):
    """a failure at any step of sending: the alternative gets the record, the connection is closed, the next record is mailed on a new one"""
    net = Net()
    install(c, net)
    alts = []
    fault = c.choose('fails', ['connect', 'login', 'sendmail', 'quit', 'text', 'subject', 'text is not a string'])
    bad = [True]

    def text(log):
        if fault == 'text' and bad[0]:
            raise UserError('text')
        return 5 if fault == 'text is not a string' and bad[0] else 'text'

    def subject(log):
        if fault == 'subject' and bad[0]:
            raise UserError('subject')
        return 'subject'
    h = sender(c, text_assembler=text, subject_assembler=subject, alt=alts.append)
    if fault in ('connect', 'login', 'sendmail', 'quit'):
        net.kind = c.choose('kind of failure', KINDS)
        net.once = c.choose('passes', [False, True])
    net.fault = fault
    item = an_item(c, message='m')
    out = c.run(h, item)
    c.prove('never raises', out.ok)
    c.prove('the alternative gets the record, unless it was mailed', alts == ([] if fault == 'quit' else [item]))
    mails = [d for conn in net.made for d in conn.did if d[0] == 'sendmail']
    c.prove('not mailed twice', len(mails) <= 1)
    c.prove('no mail without text or subject', fault in ('connect', 'login', 'sendmail', 'quit') or not net.made)
    for conn in net.made:
        c.prove('the connection is closed or asked to', conn.closed or conn.did[-1][0] == 'quit')
    net.fault, bad[0] = None, False
    k = len(net.made)
    second = an_item(c, message='second')
    out = c.run(h, second)
    c.prove('the next record is mailed on a new connection', out.ok and len(net.made) == k + 1 and len(alts) == (0 if fault == 'quit' else 1))
    one_mail(c, net.made[-1])


@contract('C23', [W + '.send', W + '.create_smtp_server', W + '.send_mail', W + '.quit_from_server'], mode='concrete', cases=160)
def two_senders(c):
    """BOUNDED: two threads mail through one handler; one preemption at every executed line: each record is mailed once on its own connection"""
    net = Net()
    install(c, net)
    alts = []
    h = sender(c, text_assembler=lambda log: log['name'], alt=alts.append)
    x, y = c.interleave('send', lambda: h(an_item(c, name='a')), lambda: h(an_item(c, name='b')), points=60, only=('smtp',))
    c.prove('both end', x is not None and y is not None and x.ok and y.ok)
    c.prove('nothing fails', not alts)
    c.prove('two connections', len(net.made) == 2)
    texts = sorted(parts(c, one_mail(c, conn))[0] for conn in net.made)
    c.prove('each record once', texts == ['a', 'b'])
    c.prove('closed', all(conn.closed for conn in net.made))


@contract('C23', [S + '.__init__', 'polog.handlers.abstract.base:BaseHandler.do_input_proves'])
def refused_arguments(c):
    """arguments of wrong kinds are refused with ValueError"""
    net = Net()
    install(c, net)
    cls = c.get(S)
    data = dict(email_from='From.Me+1@A.b', password='SeCret', smtp_server='smtp.A.b', email_to='To.You@a.B')
    which = c.choose('argument', ['email_from', 'password', 'smtp_server', 'email_to', 'port', 'is_html', 'only_errors', 'text_assembler', 'subject_assembler', 'filter', 'alt'])
    if which in ('text_assembler', 'subject_assembler', 'filter', 'alt'):
        v, good = c.choose('value', [(None, True), (lambda x: x, True), (lambda: 1, False), (lambda a, b: 1, False), ('x', False), (5, False)])
    else:
        v = c.any('value')
        good = c.isinstance(v, {'port': int, 'is_html': bool, 'only_errors': bool}.get(which, str))
    data[which] = v
    out = c.run(cls, **data)
    c.prove('accepted exactly when it is of the right kind', c.iff(out.ok, good))
    if not out.ok:
        c.prove('refused with ValueError', out.raised(ValueError))
    c.prove('no connection is made', not net.made)


@contract('C23', [S + '.__repr__'])
def the_password_is_hidden(c):
    """repr never shows the password"""
    net = Net()
    install(c, net)
    h = sender(c, password='very secret', port=c.choose('port', [25, 465]))
    for text in (repr(h), str(h)):
        c.prove('the password is hidden', 'very secret' not in text)
