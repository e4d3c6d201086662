"""The program is followed from the moment the build context exists, with every
one of its steps failing in every way (build errors, other errors, interrupts,
exits).  Once loading the state has succeeded every end must have tried to save
it and then to stop the store service, also when saving failed; every end must
have stopped the scheduler, as the last step; the temporary directory may be
removed only after the build returned.  Saving must be skipped only when that
was asked for, and be done while interrupts are ignored, with the previous
handling put back on every path.  Stopping the scheduler must tell every worker
to stop before it wakes any, wake each and then wait for each; a worker that
ends after being told to must pass the wake-up on."""
from .sched import *
from .c14 import is_whole

MAIN = 'fbuild.main.main'
CTX = 'fbuild.context.Context'

T = {
    'saved': 'once the state is loaded, every end of the program saves it',
    'service': 'once the state is loaded, every end stops the store service, after saving',
    'workers': 'every end of the program stops the workers, as its last step',
    'tempdir': 'the temporary directory is removed only after the build returned',
    'not-cut-short': 'the state is saved while interrupts are ignored, unless saving was disabled',
    'handler': 'the previous interrupt handling is put back on every path',
    'stops': 'shutting the scheduler down tells every worker, then wakes each, then waits for each',
    'wakes': 'a worker that was told to stop passes the wake-up on when it ends',
}


def check(ck):
    for k, v in T.items():
        ck.rule(k, v)
    main(ck)
    save(ck)
    R = Roles(ck)
    stop(ck, R)
    passes_on(ck, R)
    for k in T:
        ck.at_least(k, 1)


# ------------------------------------------------------------------ the program

STEPS = ('load_configuration', 'save_configuration', 'clear_temp_dir',
         'shutdown', 'create_buildroot', 'build', 'rmtree', 'exists')


class Program(Policy):
    """ts: made = there is a context; loaded; saved; down = service stopped;
    stopped = workers stopped; built = the build returned"""
    track_exc = True
    max_states = 200
    ck = bad = None

    def ignored(self, name):
        return True

    def say(self, rule, why, node):
        k = (rule, why)
        if k not in self.bad:
            self.bad[k] = getattr(node, 'lineno', 0)

    def ctx(self, t):
        return t is not None and t[0] == 'call' and \
            tail(t[1]) in ('parse_args', 'Context')

    def step(self, name, recv):
        """Which of the steps watched a call is."""
        t = tail(name)
        if name == 'fbuild.main.build':
            return 'build'
        if recv is None:
            return None
        if t in ('load_configuration', 'save_configuration',
                 'clear_temp_dir') and self.ctx(recv):
            return t
        if t == 'shutdown' and recv[0] == 'attr' and self.ctx(recv[1]):
            return {'db': 'service', 'scheduler': 'workers'}.get(recv[2])
        return None

    def model(self, it, name, recv, args, kwargs, st, node):
        # methods of the context that were not there before
        if name.startswith('.') and self.ctx(recv) and \
                not isinstance(node, ast.Attribute):
            c = self.ck.prog.require_class(CTX)
            fi = c.methods.get(name[1:])
            if fi and self.inline(fi) and it.can_inline(fi, it.cur_frame):
                return it.call_function(fi, recv, args, kwargs, c, None, st,
                                        node, it.cur_frame)
        return None

    def tried(self, s, step, node, ok):
        ts = s.ts
        if ts.get('stopped') and step != 'workers':
            self.say('workers', 'something is still to be done (%s) after '
                     'the workers were stopped' % step, node)
        if step == 'load_configuration' and ok:
            ts['loaded'] = True
        elif step == 'build':
            ts['built'] = ok
        elif step == 'save_configuration':
            ts['saved'] = True
            if ts.get('down'):
                self.say('saved', 'the state is saved after the store '
                         'service was stopped', node)
        elif step == 'service':
            ts['down'] = True
        elif step == 'workers':
            ts['stopped'] = True
        elif step == 'clear_temp_dir':
            if not ts.get('built'):
                self.say('tempdir', 'temporary files are removed although '
                         'the build did not succeed', node)
            ts['cleared'] = True

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if tail(name) in ('parse_args', 'Context') and \
                not isinstance(node, ast.Attribute):
            s.ts['made'] = True
        k = self.step(name, recv)
        if k:
            self.tried(s, k, node, True)
        if name in ('os._exit', 'os.abort') and s.ts.get('made'):
            self.say('workers', 'the program is ended without stopping '
                     'anything', node)

    def on_raise(self, s, name, recv, args, node, it):
        k = self.step(name, recv)
        if k:
            self.tried(s, k, node, False)

    def may_raise(self, name, recv):
        if self.step(name, recv):
            return True
        x = recv
        while x is not None and x[0] == 'attr':
            x = x[1]
        return self.ctx(x) and name.startswith('.') or \
            name == 'os.path.exists'


def main(ck):
    m = ck.prog.require_function(MAIN)
    pol = Program()
    pol.ck, pol.bad = ck, {}
    r = ck.explored(Interp(ck.prog, pol).run(m))
    seen = set()
    for s, t in r.returns + r.raises:
        ts = s.ts
        seen |= {k for k, v in ts.items() if v}
        if not ts.get('made'):
            continue
        if not ts.get('stopped'):
            pol.say('workers', 'the program ends without stopping the '
                    'workers, and does not end', m.node)
        if not ts.get('loaded'):
            continue
        if not ts.get('saved'):
            pol.say('saved', 'the program ends without saving the state',
                    m.node)
        if not ts.get('down'):
            pol.say('service', 'the program ends without stopping the store '
                    'service', m.node)
    for k, rule in (('made', 'workers'), ('stopped', 'workers'),
                    ('loaded', 'saved'), ('saved', 'saved'),
                    ('down', 'service')):
        if k not in seen:
            pol.say(rule, 'this step was not found on any path', m.node)
    if not any(s.ts.get('cleared') for s, t in r.returns):
        ck.note('tempdir', 'the temporary directory is never removed')
    report(ck, pol, m, ('saved', 'service', 'workers', 'tempdir'))


# ----------------------------------------------------------------- saving

class Saving(Policy):
    """ts: sig = how interrupts are handled: (was) | ign | other"""
    track_exc = True
    max_states = 200
    bad = None

    def ignored(self, name):
        return True

    say = Program.say

    def may_raise(self, name, recv):
        return self.saves(name, recv)

    def saves(self, name, recv):
        return tail(name) == 'close' and recv is not None and \
            attr_of(recv, ('self', CTX)) == 'db'

    def on_event(self, s, name, recv, args, kwargs, node, it):
        ts = s.ts
        if name in ('signal.signal', 'signal.pthread_sigmask') and \
                len(args) == 2:
            ts['sig'] = self.after(s, name, args)
        elif self.saves(name, recv):
            self.saving(s, node)

    def on_raise(self, s, name, recv, args, node, it):
        if self.saves(name, recv):
            self.saving(s, node)

    def saving(self, s, node):
        s.ts['saved'] = True
        if s.ts.get('sig') != 'ign':
            self.say('not-cut-short', 'an interrupt can cut saving the state '
                     'short', node)

    def after(self, s, name, args):
        a, b = args
        if name == 'signal.pthread_sigmask':
            if b != SIGINT and SIGINT not in b[1:] and not prev(b, name):
                return s.ts.get('sig')
            how = a[-1].split('.')[-1] if isinstance(a[-1], str) else a[-1]
            if how == 'SIG_BLOCK':
                return 'ign'
            return None if how == 'SIG_UNBLOCK' or prev(b, name) else 'other'
        if a != SIGINT:
            return s.ts.get('sig')
        if b == ('global', 'signal.SIG_IGN'):
            return 'ign'
        return None if prev(b, name) else 'other'


SIGINT = ('global', 'signal.SIGINT')


def prev(t, name):
    """What an earlier call said the handling was."""
    return t[0] == 'call' and (t[1] == 'signal.getsignal' and
                               t[3] == (SIGINT,) or
                               t[1] == name and t[3][:1] in (
                                   (SIGINT,),
                                   (('global', 'signal.SIG_BLOCK'),)))


def save(ck):
    c = ck.prog.require_class(CTX)
    m = ck.prog.require_method(CTX, 'save_configuration')
    pol = Saving()
    pol.bad = {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=c))
    opt = ('attr', ('attr', ('self', CTX), 'options'), 'do_not_save_database')
    for s, t in r.returns + r.raises:
        if s.ts.get('sig') is not None:
            pol.say('handler', 'the interrupt handling is not put back on a '
                    'path', m.node)
    for s, t in r.returns:
        if not s.ts.get('saved') and s.holds(opt) is not True:
            pol.say('not-cut-short', 'saving the state is skipped although '
                    'that was not asked for', m.node)
    if not any(s.ts.get('saved') for s, t in r.returns):
        pol.say('not-cut-short', 'the state is never saved', m.node)
    report(ck, pol, m, ('not-cut-short', 'handler'))


# ------------------------------------------------------- stopping the workers

class Stop(SchedPolicy):
    """ts: it = (iterable, told, woken, joined) of the iteration running"""

    def inline(self, fi):
        return Policy.inline(self, fi)

    def model(self, it, name, recv, args, kwargs, st, node):
        return None

    def threads(self, E):
        """The attribute all of which E goes over."""
        for x in subterms(E):
            if isinstance(x, tuple) and x and x[0] == 'attr':
                a = attr_of(x, self.roles.me)
                if a and is_whole(E, x) and \
                        a not in self.roles.queues | self.roles.locks:
                    return a
        return None

    def on_iter(self, s, E, node, it):
        s.ts['it'] = (False, 0, False)

    def iter_done(self, s, E, node, it):
        told, woken, joined = s.ts.get('it', (False, 0, False))
        out = []
        e = elem(E)
        dead = any(not p and f[0] == 'call' and tail(f[1]) == 'is_alive' or
                   p and f[0] == 'cmp' and f[1] in ('Is', 'Eq') and any(
                       x[0] == 'call' and tail(x[1]) == 'current_thread'
                       for x in f[2:])
                   for f, p in s.facts)
        if told:
            out.append('told')
        if woken:
            out.append('woken')
        if joined or dead:
            out.append('joined')
        s.ts.pop('it', None)
        return out

    def did(self, s, label):
        if label in s.ts.get('all', ()):
            return True
        if label == 'joined' and s.ts.get('popped') in (
                None, 'joined') and any(
                not p and f[0] == 'attr' and self.threads(f)
                for f, p in s.facts):
            return True
        for f, p in s.facts:
            if p and f[0] == 'forall' and f[2] == ('did', label) and \
                    self.threads(f[1]):
                return True
            if p and f[0] == 'forall_none' and self.threads(f[1]):
                return True
        return False

    def of_thread(self, t):
        while t[0] == 'item':
            t = t[1]
        return t[0] == 'elem' and self.threads(t[1]) or \
            t[0] == 'attr' and self.threads(t) or self.pops(t)

    def pops(self, t):
        return t[0] == 'call' and tail(t[1]) in ('pop', 'popleft') and \
            t[2] is not None and self.threads(t[2])

    def may_raise(self, name, recv):
        return False

    def may_miss(self, coll, key):
        return False

    def on_event(self, s, name, recv, args, kwargs, node, it):
        if recv is None:
            return
        # what was done for all threads stays done when the list is replaced
        s.ts['all'] = frozenset(k for k in ('told', 'woken', 'joined')
                                if self.did(s, k))
        t = tail(name)
        told, woken, joined = s.ts.get('it', (False, 0, False))
        if t == 'shutdown' and self.of_thread(recv):
            told = True
        elif t in ('put', 'put_nowait') and self.roles.queue(recv):
            if not self.did(s, 'told'):
                self.say('stops', 'a worker is woken before all were told to '
                         'stop: it goes on waiting', node)
            woken = 1
        elif t in ('pop', 'popleft') and self.threads(recv):
            s.ts['popped'] = 'lost' if s.ts.get('popped') in (
                'lost', 'held') else 'held'
        elif t == 'join' and self.of_thread(recv):
            if self.pops(recv) and s.ts.get('popped') == 'held':
                s.ts['popped'] = 'joined'
            if not self.did(s, 'woken'):
                self.say('stops', 'a worker is waited for before all were '
                         'woken', node)
            if args and args[0] != NONE or kwargs:
                self.say('stops', 'the wait for a worker may end before it '
                         'does', node)
            joined = True
        else:
            return
        s.ts['it'] = (told, woken, joined)


def stop(ck, R):
    m = ck.prog.require_method(SCHED, 'shutdown')
    pol = Stop()
    pol.roles, pol.bad = R, {}
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.sched))
    for s, t in r.returns:
        for k, why in (('told', 'not every worker is told to stop'),
                       ('woken', 'not every worker is woken'),
                       ('joined', 'not every worker is waited for')):
            if not pol.did(s, k):
                pol.say('stops', why, m.node)
    if r.raises:
        pol.say('stops', 'it may fail', m.node)
    # what telling a worker does
    w = ck.prog.require_method(WORKER, 'shutdown')
    if not flags(ck, R):
        pol.say('stops', 'telling a worker to stop has no effect', w.node)
    report(ck, pol, m, ('stops',))


def flags(ck, R):
    out = set()
    sm = ck.prog.require_method(WORKER, 'shutdown')
    for o in Interp(ck.prog, Quiet()).run(sm, cls=R.worker).obs:
        if o.name == 'set.attr' and o.recv == R.wme and \
                o.args[1][0] == 'const' and o.args[1][2]:
            out.add(o.args[0][2])
        if tail(o.name) == 'set' and attr_of(o.recv, R.wme):
            out.add(o.recv[2])
    return out


class PassOn(Work):
    """ts: passed = the wake-up was passed on since the last wait"""
    flags = frozenset()

    def say(self, rule, why, node):
        if rule in T:
            super().say(rule, why, node)

    def on_event(self, s, name, recv, args, kwargs, node, it):
        t = tail(name)
        if t in ('get', 'get_nowait') and self.roles.queue(recv):
            self.fresh(s)
            s.ts['passed'] = False
        elif t in ('put', 'put_nowait') and self.roles.queue(recv):
            s.ts['passed'] = True
            return
        super().on_event(s, name, recv, args, kwargs, node, it)
        if recv is not None and t == 'run' and self.path(recv):
            self.fresh(s)

    def on_raise(self, s, name, recv, args, node, it):
        super().on_raise(s, name, recv, args, node, it)
        if tail(name) == 'run':
            self.fresh(s)
            s.ts['passed'] = False

    def fresh(self, s):
        """While waiting or running a task the flag may have been set."""
        for a in self.flags:
            x = ('attr', self.roles.wme, a)
            s.facts = frozenset(f for f in s.facts if not mentions(f[0], x))
            for k in [k for k in s.heap if k == (self.roles.wme, a)]:
                del s.heap[k]

    def off(self, s):
        return any(not p and any(mentions(f, ('attr', self.roles.wme, a))
                                 for a in self.flags)
                   for f, p in s.facts)


def passes_on(ck, R):
    m = ck.prog.require_method(WORKER, 'run')
    pol = PassOn()
    pol.roles, pol.bad = R, {}
    pol.run_path, pol.back_path = set(), set()
    pol.flags = flags(ck, R)
    r = ck.explored(Interp(ck.prog, pol).run(m, cls=R.worker))
    for s, t in r.returns + r.raises:
        if not s.ts.get('passed') and not pol.off(s):
            pol.say('wakes', 'a worker that was told to stop ends without '
                    'passing the wake-up on: a worker whose own was taken '
                    'by a task waiting for others never ends', m.node)
    report(ck, pol, m, ('wakes',))
