"""A session with the interactive shell of slugs (--interactiveStrategy)."""
import subprocess, re, threading, tempfile

SENT = "ZZ7"
END = ("Error: Did not understand command '%s'\n> " % SENT).encode()


class Broken(Exception):
    pass


class Shell:
    def __init__(self, exe, args, scratch, timeout=60):
        self.err = tempfile.TemporaryFile(dir=scratch)
        self.p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
        self.timer = threading.Timer(timeout, self.p.kill)
        self.timer.start()
        self.log = []

    def ask(self, text):
        self.log.append(text)
        try:
            self.p.stdin.write((text + "\n" + SENT + "\n").encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise Broken("shell ended before %r" % text)
        buf = b""
        fd = self.p.stdout
        while not buf.endswith(END):
            b = fd.read1(65536)
            if not b:
                raise Broken("shell ended in %r" % text)
            buf += b
        r = buf[:-len(END)].decode(errors="replace")
        if not r.endswith("> "):
            raise Broken("no prompt after %r: %r" % (text, r))
        self.log.append(r)
        return r[:-2]

    def start(self):
        # the first prompt
        if self.p.stdout.read(2) != b"> ":
            raise Broken("no first prompt")

    def close(self, quit_="QUIT"):
        rc = None
        try:
            self.p.stdin.write((quit_ + "\n").encode())
            self.p.stdin.close()
        except (BrokenPipeError, OSError):
            pass
        rest = self.p.stdout.read()
        rc = self.p.wait()
        self.timer.cancel()
        self.err.seek(0)
        return rc, rest.decode(errors="replace"), self.err.read().decode(errors="replace")


def bits(p, n):
    return "".join(str((p >> k) & 1) for k in range(n))


def unbits(s):
    return sum(1 << k for k, c in enumerate(s) if c == "1")


class Session:
    """Issues commands, lexes the replies into events."""

    def __init__(self, sh, ins, outs, decl):
        self.sh, self.ins, self.outs, self.decl = sh, ins, outs, decl
        self.n = len(ins) + len(outs)
        self.order = ins + outs
        self.events = []

    def ev(self, cmd, **kw):
        e = dict(kw, cmd=cmd)
        self.events.append(e)
        return e

    def lex(self, pat, s, cmd, **kw):
        m = re.fullmatch(pat, s, re.S)
        if not m:
            self.ev("garbled", what="%s answered %r" % (cmd, s))
            raise Broken("%s answered %r" % (cmd, s))
        return m

    def names(self, which):
        s = self.sh.ask(which)
        if not s.startswith("\n") or not s.endswith("\n\n"):
            self.lex("(?!)", s, which)
        return self.ev(which, names=s[1:-2].split("\n") if len(s) > 2 else [])

    def counts(self):
        m = self.lex(r"\n(\d+)\n(\d+)\n", self.sh.ask("XGETNOFLIVENESSPROPERTIES"), "XGETNOFLIVENESSPROPERTIES")
        return self.ev("XGETNOFLIVENESSPROPERTIES", na=int(m.group(1)), ng=int(m.group(2)))

    def getinit(self):
        m = self.lex(r"\n([01]{%d}),(\d+)\n" % self.n, self.sh.ask("XGETINIT"), "XGETINIT")
        return self.ev("XGETINIT", q=unbits(m.group(1)), goal=int(m.group(2)))

    def startpos(self):
        pat = "".join(r" - %s: ([01])\n" % re.escape(v) for v in self.decl)
        m = self.lex(pat, self.sh.ask("STARTPOS"), "STARTPOS")
        q = sum(1 << self.order.index(v) for k, v in enumerate(self.decl) if m.group(k + 1) == "1")
        return self.ev("STARTPOS", q=q, goal=0)

    def values(self, p, names, rng=None):
        """values of names in order, sometimes an odd number for 1; returns tokens and
        the text the shell inserts"""
        toks, pats = [], []
        for v in names:
            b = (p >> self.order.index(v)) & 1
            w = ""
            t = str(b)
            if b and rng and rng.random() < .15:
                t = str(rng.choice([2, 7, -1]))
                w = "    -> Value != 0 or 1. Assuming 1.\n"
            toks.append(t)
            pats.append(" - " + v + ": " + w)
        return toks, pats

    def setpos(self, p, rng=None):
        t, w = self.values(p, self.decl, rng)
        s = self.sh.ask("SETPOS\n" + "\n".join(t))
        self.lex(re.escape("Position: \n" + "".join(w)), s, "SETPOS")
        return self.ev("SETPOS", q=p)

    def maketrans(self, x, random_=False):
        cmd = "XMAKETRANSRANDOM" if random_ else "XMAKETRANS"
        b = bits(x, len(self.ins))
        i = "".join(b[self.ins.index(v)] for v in self.decl if v in self.ins)
        s = self.sh.ask(cmd + "\n" + i)
        if s == "\nERROR\n":
            return self.ev(cmd, x=x, r="ERROR", q=0, goal=0)
        m = self.lex(r"\n([01]{%d}),(\d+)\n" % self.n, s, cmd)
        return self.ev(cmd, x=x, r="move", q=unbits(m.group(1)), goal=int(m.group(2)))

    LIVES = r"- The transition is a goal transition for the following liveness assumptions: ([^\n]*)\n- The transition is a goal transition for the following liveness guarantees: ([^\n]*)\n- The transition is a possible transition in a strategy for the following goals: ([^\n]*)\n"

    def idx(self, s):
        if s == "none":
            return []
        if not re.fullmatch(r"\d+(, \d+)*", s):
            self.lex("(?!)", s, "index list")
        return [int(k) for k in s.split(", ")]

    def checktrans(self, p, q, rng=None):
        t1, w1 = self.values(p, self.decl, rng)
        t2, w2 = self.values(q, self.decl, rng)
        w2 = [re.sub(r"^ - (.*?): ", lambda m: " - " + m.group(1) + "': ", w, count=1) for w in w2]
        s = self.sh.ask("CHECKTRANS\n" + "\n".join(t1 + t2))
        m = self.lex(re.escape("From: \n" + "".join(w1) + "To: \n" + "".join(w2) + "Result: \n") +
                     r"- The pre-position is (not )?winning\.\n- The transition (VIOLATES|SATISFIES) the SAFETY ASSUMPTIONS\n"
                     r"- The transition (VIOLATES|SATISFIES) the SAFETY GUARANTEES\n" + self.LIVES, s, "CHECKTRANS")
        return self.ev("CHECKTRANS", p=p, q=q, win=m.group(1) is None, e=m.group(2) == "SATISFIES", s=m.group(3) == "SATISFIES",
                       la=self.idx(m.group(4)), lg=self.idx(m.group(5)), ls=self.idx(m.group(6)))

    def move(self, goal, x, npos_known, too_large, rng=None):
        inames = [v for v in self.decl if v in self.ins]
        t, w = self.values(x, inames, rng)
        w = [re.sub(r"^ - (.*?): ", lambda m: " - " + m.group(1) + "': ", k, count=1) for k in w]
        # what is asked depends on the reply, so the input is sent in two steps
        s = self.sh.ask("MOVE\n%d\n%s" % (goal, "\n".join(t)))
        # left-over numbers are reported as unknown commands
        E = lambda d: self.ev("MOVE", **dict(dict(goal=goal, x=x, q=0, warned=False, la=[], lg=[], ls=[]), **d))
        left = lambda ts: re.escape("".join("> Error: Did not understand command '%s'\n" % k for k in ts))
        if re.fullmatch(re.escape("Error: The current position is undefined. Use SETPOS prior to calling MOVE.\n") + left([str(goal)] + t), s):
            return E({"r": "undefined"})
        if re.fullmatch(re.escape("Guarantee No.:     -> Number too large. Aborting \n") + left(t), s):
            return E({"r": "too large"})
        if re.fullmatch(re.escape("Guarantee No.: No move possible. There is no allowed next input!\n") + left(t), s):
            return E({"r": "no input"})
        onames = [v for v in self.decl if v in self.outs]
        m = self.lex(re.escape("Guarantee No.: To: \n" + "".join(w)) + r"(Warning: that is an illegal next input!\n)?" +
                     r"(?:(    -> Error: Input not allowed here\.\n(?:       -> Actually, that's an internal error!\n)?)|" +
                     "".join(r" - %s = ([01])\n" % re.escape(v + "'") for v in onames) + self.LIVES + ")", s, "MOVE")
        if m.group(2):
            return E({"r": "not allowed", "warned": m.group(1) is not None})
        q = x
        for k, v in enumerate(onames):
            if m.group(3 + k) == "1":
                q |= 1 << self.order.index(v)
        b = 3 + len(onames)
        return E({"r": "move", "q": q, "warned": m.group(1) is not None, "la": self.idx(m.group(b)), "lg": self.idx(m.group(b + 1)), "ls": self.idx(m.group(b + 2))})

    def completeinit(self, pat):
        s = self.sh.ask("XCOMPLETEINIT\n" + pat)
        m = self.lex(r"\n(?:(FAILASSUMPTIONS|FORCEDNONWINNING)\n|(FAILGUARANTEES\n)?([01aAgGsS]{%d})\n)" % self.n, s, "XCOMPLETEINIT")
        return self.ev("XCOMPLETEINIT", f=list(pat), r=m.group(1) or ("FAILGUARANTEES" if m.group(2) else "line"), line=list(m.group(3) or ""))

    def strat(self, p, pat, ca, cg):
        s = self.sh.ask("XSTRATEGYTRANSITION\n%s%s\n%d\n%d" % (bits(p, self.n), pat, ca, cg))
        m = self.lex(r"\n(?:(FAILASSUMPTIONS|FORCEDNONWINNING)\n|(FAILGUARANTEES\n)?([01aAgGsS]{%d})\n(\d+)\n(\d+)\n)" % self.n, s, "XSTRATEGYTRANSITION")
        return self.ev("XSTRATEGYTRANSITION", p=p, f=list(pat), ca=ca, cg=cg, r=m.group(1) or ("FAILGUARANTEES" if m.group(2) else "line"),
                       line=list(m.group(3) or ""), na=int(m.group(4) or 0), ng=int(m.group(5) or 0))


def value(line):
    return sum(1 << k for k, c in enumerate(line) if c in "1AGS")
