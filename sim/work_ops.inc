// Execution of plan operations. Included by work.cc.

static void act_main(int argc, void *argv[]);
static int64_t fault_sum() {
    int64_t s = mem_failed_total;
    for (int i = 0; i < NFAULTS; i++)
        if (i != F_NET_DELAY && i != F_THREAD_SWITCH && i != F_CLOCK_COARSE && i != F_CLOCK_STALL && i != F_PREEMPT && i != F_EV_SHUFFLE && i != F_SLEEP_LATE && i != F_SHORT_READ && i != F_SHORT_WRITE && i != F_EINTR_WAIT && i != F_WALL_JUMP && i != F_GAI_DELAY && i != F_CONN_SLOW && i != F_SIGNAL && i != F_SPUR_WAKE && i != F_EINTR_IO && i != F_SPUR_EAGAIN && i != F_SIG_THREAD && i != F_SIG_MIDWAY && i != F_THREAD_HOLD && i != F_CANCEL && i != F_DEADLINE)
            s += (int64_t)R->faults[i];
    return s;
}

// ------------------------------------------------------------ I/O
static Conn *new_conn(int rt) {
    Conn *c = new Conn;
    c->id = (int)conns.size();
    c->rt = rt;
    conns.push_back(c);
    return c;
}
static Conn *conn_for_uid(int uid, int rt) {
    auto it = uidconn.find(uid);
    if (it != uidconn.end()) return it->second;
    Conn *c = new_conn(rt);
    uidconn[uid] = c;
    return c;
}
static void kwrite_hook(int fd, const void *data, size_t n) {
    auto it = fdmap.find(fd);
    if (it == fdmap.end()) return;
    Conn *c = it->second.first;
    int s = it->second.second;
    if (!c->wbusy[s]) VIO("C15 C16", "io:write-outside-call", "%zu bytes were written to connection %d while no write was in progress", n, c->id);
    tracef("kernel takes %zu bytes from connection %d side %d at %llu", n, c->id, s, (unsigned long long)c->kacc[s]);
    ssize_t bad = cmppat((const uint8_t *)data, n, c->id, s, c->kacc[s]);
    if (bad >= 0) {
        VIO(c->stmode ? "C16 C15" : "C15", "io:wrong-bytes-written", "byte %llu delivered to connection %d is not the byte the writer gave", (unsigned long long)(c->kacc[s] + (uint64_t)bad), c->id);
        sim_end_run();
    }
    c->kacc[s] += n;
    // one write that the kernel takes piecemeal: the others have to get their turn in between
    static uint64_t seq[4];
    static int nw[4];
    int rt = rt_of_thread();
    if (rt < 0 || !c->wbusy[s] || c->wbusy[s]->k != O_WRITE) return;
    if (S.seq != seq[rt & 3]) seq[rt & 3] = S.seq, nw[rt & 3] = 0;
    if (++nw[rt & 3] < 24) return;
    for (Act *a : acts)
        if (a->rt == rt && a->st != Act::IDLE && a->st != Act::DONE && a->cur && a->cur->k == O_YIELD) {
            VIO("C13", "fair:write-starves", "a write went on for 24 system calls while the yield of %s did not return", aname(a));
            sim_end_run();
        }
}
static void kread_hook(int fd, const void *, size_t n, size_t) {
    auto it = fdmap.find(fd);
    if (it == fdmap.end()) return;
    Conn *c = it->second.first;
    int s = it->second.second;
    tracef("kernel gives %zu bytes to connection %d side %d at %llu", n, c->id, s, (unsigned long long)c->krd[s]);
    if (c->st[s]) c->kbase[s] = c->krd[s];
    c->krd[s] += n;
}
// an I/O failure must have a cause
static void io_error_cause(OpRec *o, Conn *c, int s, int64_t r, int64_t f0, int en) {
    if (r == NECO_CANCELED || r == NECO_TIMEDOUT || r == NECO_NOMEM) return;
    if (fault_sum() != f0 || c->peer_gone || c->reset || c->shut || !c->open[1 - s]) return;
    VIO(tg(ktags(o->k), "C25").c_str(), "io:error-without-cause", "%s: %s on connection %d failed (%s, errno %d) without a real error", aname(o->act), op_names[o->k], c->id, ename(r), en);
}
static int64_t do_read(Act *a, Conn *c, int s, size_t n, int64_t D) {
    if (c->rbusy[s] || !c->open[s]) return -99;
    OpRec *o = begin(a, O_READ, c->id, D);
    o->obj2 = s;
    c->rbusy[s] = o;
    o->kd0 = c->krd[s];
    if (a->pend) expect(o, NECO_CANCELED);
    int64_t f0 = fault_sum();
    uint8_t *buf = (uint8_t *)malloc(n + 32);
    memset(buf, 0xEE, n + 32);
    ssize_t r = (D == NODL ? neco_read(c->fd[s], buf, n) : neco_read_dl(c->fd[s], buf, n, D));
    int en = errno, le = neco_lasterr();
    c->rbusy[s] = nullptr;
    check_lasterr(a, O_READ, r, le, en, false);
    int64_t nr = norm(r, le);
    uint64_t d = c->krd[s] - o->kd0;
    for (int i = 0; i < 32; i++) if (buf[n + (size_t)i] != 0xEE) { VIO("C15 C20", "io:overrun", "a read wrote past the caller's buffer"); break; }
    if (r >= 0) {
        if ((uint64_t)r != d) VIO("C15", "io:read-count", "%s: read on connection %d returned %zd, the kernel delivered %llu bytes", aname(a), c->id, r, (unsigned long long)d);
        if (cmppat(buf, (size_t)r, c->id, 1 - s, c->rlog[s]) >= 0) VIO("C15", "io:wrong-bytes-read", "%s: read on connection %d returned wrong bytes at offset %llu", aname(a), c->id, (unsigned long long)c->rlog[s]);
        if (r == 0 && n > 0 && !k_eof(c->fd[s])) VIO("C15", "io:false-eof", "%s: read on connection %d reported end of stream although it is open", aname(a), c->id);
        c->rlog[s] += (uint64_t)r;
    } else {
        if (d) VIO("C15", "io:read-lost", "%s: read on connection %d failed with %s but consumed %llu bytes", aname(a), c->id, ename(nr), (unsigned long long)d);
        io_error_cause(o, c, s, nr, f0, en);
    }
    free(buf);
    fin(o, nr);
    return nr;
}
static int64_t do_write(Act *a, Conn *c, int s, size_t n, int64_t D) {
    if (c->wbusy[s] || !c->open[s]) return -99;
    OpRec *o = begin(a, O_WRITE, c->id, D);
    o->obj2 = s;
    c->wbusy[s] = o;
    o->kd0 = c->kacc[s];
    if (a->pend) expect(o, NECO_CANCELED);
    int64_t f0 = fault_sum();
    uint8_t *buf = (uint8_t *)malloc(n + 1);
    fillpat(buf, n, c->id, s, c->kacc[s]);
    ssize_t r = (D == NODL ? neco_write(c->fd[s], buf, n) : neco_write_dl(c->fd[s], buf, n, D));
    int en = errno, le = neco_lasterr();
    c->wbusy[s] = nullptr;
    memset(buf, 0x5A, n); // the caller reuses its buffer at once
    check_lasterr(a, O_WRITE, r, le, en, r >= 0 && (size_t)r < n);
    int64_t nr = norm(r, le);
    uint64_t d = c->kacc[s] - o->kd0;
    if (r >= 0) {
        if ((uint64_t)r != d) VIO("C15", "io:write-count", "%s: write on connection %d returned %zd, the kernel took %llu bytes", aname(a), c->id, r, (unsigned long long)d);
        if ((size_t)r < n) {
            bool dl = D != NODL && S.now >= D;
            if (!dl && !a->pend && a->maybe.empty()) io_error_cause(o, c, s, -1, f0, en);
        }
    } else {
        if (d) VIO("C15", "io:write-partial-hidden", "%s: write on connection %d reported %s although %llu bytes were written", aname(a), c->id, ename(nr), (unsigned long long)d);
        io_error_cause(o, c, s, nr, f0, en);
    }
    // buf is deliberately not freed: a late background write would touch it
    fin(o, nr);
    return nr;
}
static int64_t do_wait(Act *a, Conn *c, int s, int mode, int64_t D) {
    if (!c->open[s]) return -99;
    OpRec *o = begin(a, O_WAIT, c->id, D);
    o->obj2 = s;
    o->msg = (uint32_t)mode;
    c->nwait[s]++;
    int64_t f0 = fault_sum();
    int64_t r = (D == NODL ? neco_wait(c->fd[s], mode) : neco_wait_dl(c->fd[s], mode, D));
    int en = errno, le = neco_lasterr();
    c->nwait[s]--;
    check_lasterr(a, O_WAIT, r, le, en, false);
    int64_t nr = norm(r, le);
    if (r == NECO_OK && ev_report[c->fd[s]][mode == NECO_WAIT_WRITE] < o->inv)
        VIO("C14", "wait:false-ready", "%s: wait on connection %d reported ready although the descriptor was never ready during the wait", aname(a), c->id);
    if (r < 0 && nr != NECO_TIMEDOUT && nr != NECO_CANCELED && fault_sum() == f0)
        VIO("C14 C25", "wait:error", "%s: wait on connection %d failed with %s without a cause", aname(a), c->id, ename(nr));
    if (o->pend_at_inv && r == -1 && nr != NECO_CANCELED) o->pend_at_inv = false;
    fin(o, nr);
    return nr;
}

// ------------------------------------------------------------ streams
static bool stream_sizes(Act *a, Conn *c, int s) {
    if (!c->st[s]) return true;
    ssize_t rs = neco_stream_buffered_read_size(c->st[s]);
    ssize_t ws = neco_stream_buffered_write_size(c->st[s]);
    bool buf = c->stmode == 2;
    uint64_t er = buf ? c->krd[s] - c->rlog[s] : 0, ew = buf ? c->wlog[s] - c->kacc[s] : 0;
    if (!c->fuzzyr[s] && !c->rbusy[s] && (uint64_t)rs != er) {
        VIO("C16", "stream:read-size", "%s: stream %d reports %zd buffered bytes to read, actually %llu", aname(a), c->id, rs, (unsigned long long)er);
        return false;
    }
    if (!c->fuzzyw[s] && !c->wbusy[s] && (uint64_t)ws != ew) {
        VIO("C16", "stream:write-size", "%s: stream %d reports %zd buffered bytes to write, actually %llu", aname(a), c->id, ws, (unsigned long long)ew);
        return false;
    }
    return true;
}
static void do_stream(Act *a, int k, Conn *c, int s, size_t n, int64_t D) {
    if (!c->st[s] || !c->open[s]) return;
    bool rd = k == O_SREAD || k == O_SREADFULL || k == O_SBYTE || k == O_SUNREAD;
    bool both = k == O_SCLOSE || k == O_SSIZES;
    if ((rd || both) && c->rbusy[s]) return;
    if ((!rd || both) && c->wbusy[s]) return;
    if (k == O_SCLOSE && c->nwait[s]) return;
    bool buf = c->stmode == 2;
    if (rd && c->fuzzyr[s]) return;
    if (!rd && k != O_SCLOSE && c->fuzzyw[s]) return;
    OpRec *o = begin(a, k, c->id, D);
    o->obj2 = s;
    o->cansel = false;
    if (rd || both) c->rbusy[s] = o;
    if (!rd || both) c->wbusy[s] = o;
    int64_t f0 = fault_sum();
    uint64_t kr0 = c->krd[s], ka0 = c->kacc[s], avail = c->krd[s] - c->rlog[s];
    ssize_t r = 0;
    int en = 0, le = 0;
    neco_stream *st = c->st[s];
    auto clear = [&] { if (rd || both) c->rbusy[s] = nullptr; if (!rd || both) c->wbusy[s] = nullptr; };
    if (k == O_SREAD || k == O_SREADFULL) {
        if (n == 0) n = 1;
        // a read that has to reach the descriptor must report a pending cancel
        if (a->pend && (!buf || avail == 0)) expect(o, NECO_CANCELED);
        uint8_t *b = (uint8_t *)malloc(n + 16);
        memset(b, 0xEE, n + 16);
        if (D == NODL) r = k == O_SREAD ? neco_stream_read(st, b, n) : neco_stream_readfull(st, b, n);
        else r = k == O_SREAD ? neco_stream_read_dl(st, b, n, D) : neco_stream_readfull_dl(st, b, n, D);
        en = errno; le = neco_lasterr();
        clear();
        check_lasterr(a, k, r, le, en, false);
        for (int i = 0; i < 16; i++) if (b[n + (size_t)i] != 0xEE) { VIO("C16 C20", "stream:overrun", "a stream read wrote past the caller's buffer"); break; }
        if (r > 0) {
            if ((size_t)r > n || cmppat(b, (size_t)r, c->id, 1 - s, c->rlog[s]) >= 0) VIO("C16", "stream:wrong-bytes-read", "%s: stream read on connection %d returned wrong bytes at offset %llu", aname(a), c->id, (unsigned long long)c->rlog[s]);
            c->rlog[s] += (uint64_t)r;
            if (!buf && c->krd[s] != c->rlog[s]) VIO("C16 C15", "stream:read-count", "%s: unbuffered stream read returned %zd, the kernel delivered %llu", aname(a), r, (unsigned long long)(c->krd[s] - kr0));
            if (k == O_SREADFULL && (size_t)r < n) {
                bool cause = (D != NODL && S.now >= D) || a->lastconsume > o->inv || a->pend || !a->maybe.empty() || fault_sum() != f0 || k_eof(c->fd[s]) || c->peer_gone || c->reset || c->shut || !c->open[1 - s] || mem_faulty(o);
                if (!cause) VIO("C16", "stream:short-full-read", "%s: a full read on connection %d returned %zd of %zu bytes without a cause", aname(a), c->id, r, n);
            }
        } else {
            int64_t nr = norm(r, le);
            if (r == NECO_EOF) {
                if (!k_eof(c->fd[s]) || c->krd[s] != c->rlog[s]) VIO("C16", "stream:false-eof", "%s: stream read on connection %d reported end of stream too early", aname(a), c->id);
            } else if (r == 0) VIO("C16", "stream:zero-read", "%s: stream read on connection %d returned 0", aname(a), c->id);
            else {
                if (c->krd[s] != kr0) VIO("C16 C15", "stream:read-lost", "%s: failing stream read on connection %d consumed bytes", aname(a), c->id);
                io_error_cause(o, c, s, nr, f0, en);
            }
        }
        free(b);
    } else if (k == O_SBYTE) {
        if (a->pend && (!buf || avail == 0)) expect(o, NECO_CANCELED);
        r = (D == NODL ? neco_stream_read_byte(st) : neco_stream_read_byte_dl(st, D));
        en = errno; le = neco_lasterr();
        clear();
        check_lasterr(a, k, r, le, en, false);
        int64_t nr = norm(r, le);
        if (r >= 0) {
            if (r != patb(c->id, 1 - s, c->rlog[s])) VIO("C16", "stream:wrong-byte", "%s: byte read on connection %d returned a wrong byte", aname(a), c->id);
            c->rlog[s]++;
        } else if (r == NECO_EOF) {
            if (!k_eof(c->fd[s]) || c->krd[s] != c->rlog[s]) VIO("C16", "stream:false-eof", "%s: byte read on connection %d reported end of stream too early", aname(a), c->id);
        } else {
            if (c->krd[s] != kr0) VIO("C16", "stream:read-lost", "%s: failing byte read on connection %d consumed bytes", aname(a), c->id);
            io_error_cause(o, c, s, nr, f0, en);
        }
        fin(o, nr >= 0 ? NECO_OK : nr);
        stream_sizes(a, c, s);
        return;
    } else if (k == O_SUNREAD) {
        bool can = buf && c->upos(s) > 0;
        r = neco_stream_unread_byte(st);
        en = errno; le = neco_lasterr();
        clear();
        check_lasterr(a, k, r, le, en, false);
        expect(o, can ? NECO_OK : NECO_UNREADFAIL);
        if (r == NECO_OK) c->rlog[s]--;
    } else if (k == O_SWRITE) {
        uint8_t *b = (uint8_t *)malloc(n + 1);
        fillpat(b, n, c->id, s, c->wlog[s]);
        if (!buf && a->pend) expect(o, NECO_CANCELED);
        r = (D == NODL ? neco_stream_write(st, b, n) : neco_stream_write_dl(st, b, n, D));
        en = errno; le = neco_lasterr();
        clear();
        memset(b, 0x5A, n);
        check_lasterr(a, k, r, le, en, !buf && r >= 0 && (size_t)r < n && le == NECO_PARTIALWRITE);
        int64_t nr = norm(r, le);
        if (r >= 0) {
            c->wlog[s] += (uint64_t)r;
            if (!buf && c->kacc[s] - ka0 != (uint64_t)r) VIO("C16 C15", "stream:write-count", "%s: unbuffered stream write returned %zd, the kernel took %llu", aname(a), r, (unsigned long long)(c->kacc[s] - ka0));
            if ((size_t)r < n) {
                bool cause = (D != NODL && S.now >= D) || a->lastconsume > o->inv || a->pend || !a->maybe.empty();
                if (!cause) io_error_cause(o, c, s, -1, f0, en);
            }
        } else {
            if (!buf && c->kacc[s] != ka0) VIO("C16 C15", "stream:write-hidden", "%s: failing unbuffered stream write transferred bytes", aname(a));
            if (nr == NECO_PARTIALWRITE && c->kacc[s] > ka0) {
                // part of the older bytes was flushed before the deadline, cancel or error hit
                if (!(D != NODL && S.now >= D) && !a->pend && a->maybe.empty()) io_error_cause(o, c, s, -1, f0, en);
            } else io_error_cause(o, c, s, nr, f0, en);
        }
        if (n > 0 && r == 0) VIO("C16", "stream:null-write", "%s: a stream write of %zu bytes returned 0", aname(a), n);
        if (n == 0 && r > 0) VIO("C16", "stream:zero-write", "%s: an empty stream write returned %zd", aname(a), r);
    } else if (k == O_SFLUSH) {
        if (a->pend) expect(o, NECO_CANCELED);
        r = (D == NODL ? neco_stream_flush(st) : neco_stream_flush_dl(st, D));
        en = errno; le = neco_lasterr();
        clear();
        check_lasterr(a, k, r, le, en, false);
        if (r == NECO_OK) {
            if (c->kacc[s] != c->wlog[s]) VIO("C16", "stream:flush-incomplete", "%s: flush on connection %d succeeded with %llu bytes left", aname(a), c->id, (unsigned long long)(c->wlog[s] - c->kacc[s]));
        } else if (r == NECO_PARTIALWRITE) {
            if (c->kacc[s] == ka0 || c->kacc[s] >= c->wlog[s]) VIO("C16", "stream:false-partial", "%s: flush on connection %d reported a partial write that was none", aname(a), c->id);
            if (!(D != NODL && S.now >= D) && !a->pend && a->maybe.empty()) io_error_cause(o, c, s, -1, f0, en);
        } else {
            if (c->kacc[s] != ka0) VIO("C16", "stream:flush-hidden", "%s: failing flush on connection %d (%s) transferred bytes", aname(a), c->id, ename(r));
            io_error_cause(o, c, s, norm(r, le), f0, en);
        }
    } else if (k == O_SCLOSE) {
        int fd = c->fd[s];
        if (a->pend && buf && (D != NODL || c->wlog[s] > c->kacc[s]) && !c->fuzzyw[s]) expect(o, NECO_CANCELED);
        r = (D == NODL ? neco_stream_close(st) : neco_stream_close_dl(st, D));
        en = errno; le = neco_lasterr();
        clear();
        check_lasterr(a, k, r, le, en, false);
        c->st[s] = nullptr;
        c->open[s] = false;
        fdmap.erase(fd);
        if (k_is_open(fd)) VIO("C16 C20", "stream:close-leaks-fd", "%s: closing the stream of connection %d left its descriptor open", aname(a), c->id);
        if (r == NECO_OK && !c->fuzzyw[s] && c->kacc[s] != c->wlog[s]) VIO("C16", "stream:close-lost", "%s: stream close of connection %d succeeded but %llu bytes were not sent", aname(a), c->id, (unsigned long long)(c->wlog[s] - c->kacc[s]));
        if (r == NECO_PARTIALWRITE) { if (!(D != NODL && S.now >= D) && !a->pend && a->maybe.empty() && a->lastconsume < o->inv) io_error_cause(o, c, s, -1, f0, en); }
        else if (r < 0) io_error_cause(o, c, s, norm(r, le), f0, en);
    } else { // O_SSIZES
        clear();
    }
    int64_t nr = norm(r, le);
    if (r > 0) nr = NECO_OK;
    fin(o, nr);
    if (k != O_SCLOSE) stream_sizes(a, c, s);
}

// ------------------------------------------------------------ network
static std::string host_name(int i) {
    std::string n = std::to_string(i);
    switch ((P->addrs[(size_t)i].mode + i) % 5) {
    case 0: return "h" + n + ".sim";
    case 1: return "host" + n;
    case 2: return n + "x-9.a.b.sim";
    case 3: return std::string(200, 'a') + "." + n + std::string(40, 'b') + ".sim";
    default: return "fe" + n + ".0.0.1";
    }
}
static std::string addr_text(int i, std::string *net, std::string *key) {
    const AddrP &p = P->addrs[(size_t)i];
    char b[64];
    switch (p.kind) {
    case 0: *net = i & 1 ? "tcp" : "tcp4"; snprintf(b, sizeof b, "127.0.0.1:%d", 9000 + i); if (key) *key = std::string("4:") + b; return b;
    case 1: { // the longest path that fits has 107 bytes
        *net = "unix";
        std::string pa = "/sim/s" + std::to_string(i);
        if (p.mode == 7) pa += std::string(107 - pa.size(), 'p');
        if (p.mode == 8) pa += std::string(108 - pa.size() + (size_t)(i % 3) * 40, 'p');
        if (key) *key = "u:" + pa;
        return pa;
    }
    case 2: *net = "tcp"; snprintf(b, sizeof b, "10.0.0.%d:80", i + 1); return b;
    case 3: { static const char *const nets[] = {"tcp", "tcp4", "tcp6"}; *net = nets[p.mode / 1000 % 3]; return host_name(i) + ":80"; }
    case 6: { bool v6 = i & 1; *net = v6 ? "tcp6" : p.mode & 1 ? "tcp4" : "tcp"; snprintf(b, sizeof b, ":%d", 9000 + i); if (key) *key = std::string(v6 ? "6:::" : "4:0.0.0.0") + b; return b; }
    case 4: *net = i & 1 ? "tcp" : "tcp4"; return host_name(i) + ":80";
    case 7: *net = i & 1 ? "tcp" : "tcp4"; snprintf(b, sizeof b, ":%d", 9000 + i); if (key) *key = std::string("4:127.0.0.1") + b; return host_name(i) + b; // a name of this machine
    default: *net = "tcp6"; snprintf(b, sizeof b, "[::1]:%d", 9000 + i); { char k[80]; snprintf(k, sizeof k, "6:::1:%d", 9000 + i); if (key) *key = k; } return b;
    }
}
// the j-th address of a name
static bool name_v6(const AddrP &p, int j) { return (p.mode / 125 % 8) >> j & 1; }
static void name_ip(int i, int j, char *ip, size_t n) {
    if (name_v6(P->addrs[(size_t)i], j)) snprintf(ip, n, "fd00::%x:%x", i + 1, j + 1);
    else snprintf(ip, n, "10.1.%d.%d", i, j + 1);
}
static bool name_fits(const AddrP &p, int j) {
    int nt = p.mode / 1000 % 3;
    return nt == 0 || (nt == 2) == name_v6(p, j);
}
static void net_setup() {
    for (size_t i = 0; i < P->addrs.size(); i++) {
        const AddrP &p = P->addrs[i];
        char ip[40];
        int64_t d = (int64_t)p.delay_us * 1000;
        if (p.kind == 2) {
            snprintf(ip, sizeof ip, "10.0.0.%d", (int)i + 1);
            net_remote(AF_INET, ip, 80, p.mode % 5, d);
        } else if (p.kind == 3) {
            std::vector<std::string> ips;
            int m = p.mode;
            for (int j = 0; j < 3; j++, m /= 5) {
                name_ip((int)i, j, ip, sizeof ip);
                net_remote(name_v6(p, j) ? AF_INET6 : AF_INET, ip, 80, m % 5, d);
                ips.push_back(ip);
            }
            gai_set(host_name((int)i), ips, 0, d);
        } else if (p.kind == 4) {
            gai_set(host_name((int)i), {}, p.mode & 1 ? EAI_NONAME : EAI_FAIL, d);
        } else if (p.kind == 7) gai_set(host_name((int)i), {"127.0.0.1"}, 0, d);
    }
}
static void do_serve(Act *a, int i, int64_t D) {
    std::string net, key, ad = addr_text(i, &net, &key);
    if (key.empty()) return;
    LSock &l = lsocks[(size_t)i];
    if (l.fd >= 0 && l.rt != a->rt) return;
    bool inuse = l.fd >= 0, toolong = net == "unix" && ad.size() > 107;
    bool stale = net == "unix" && net_path_exists(key);
    OpRec *o = begin(a, O_SERVE, i, D);
    bool named = P->addrs[(size_t)i].kind == 7; // waits for the lookup, meanwhile others act
    if (!named) o->cansel = false;
    else if (a->pend) expect(o, NECO_CANCELED);
    int64_t f0 = fault_sum();
    uint64_t lc0 = net_listen_changes();
    int fds0 = k_open_fds();
    bool file0 = net_path_exists(key);
    int r = (D == NODL ? neco_serve(net.c_str(), ad.c_str()) : neco_serve_dl(net.c_str(), ad.c_str(), D));
    int en = errno, le = neco_lasterr();
    check_lasterr(a, O_SERVE, r, le, en, false);
    int64_t nr = norm(r, le);
    if (named) inuse = r >= 0 ? l.fd >= 0 : inuse || l.fd >= 0 || net_listen_changes() != lc0;
    else if (r < 0 && P->nrt > 1) inuse = inuse || l.fd >= 0 || net_listen_changes() != lc0; // the other runtime was faster
    if (r >= 0) {
        if (inuse) VIO("C17", "net:serve-in-use", "serve succeeded on an address in use");
        if (!k_is_open(r) || !k_listening(r) || !net_listening_key(key)) VIO("C17", "net:serve-not-listening", "serve returned a socket that does not listen at the address asked for");
        else if (!k_nonblock(r)) VIO("C17", "net:serve-blocking", "serve returned a blocking socket");
        l.fd = r;
        l.rt = a->rt;
        l.key = key;
    } else {
        if (!named && k_open_fds() > fds0 + 0 && k_open_fds() - k_epoll_fds() > fds0) VIO("C17 C20", "net:serve-leak", "a failed serve left a descriptor open");
        if (!file0 && net_path_exists(key)) VIO("C17 C20", "net:serve-leftover", "a failed serve left its socket file behind: the address cannot be used again");
        if (!inuse && fault_sum() == f0 && nr != NECO_TIMEDOUT && nr != NECO_CANCELED && !unlink_log.count("bound:" + key)) {
            if (!toolong && !stale) VIO("C17 C25", "net:serve-failed", "serve failed with %s (errno %d) without a cause", ename(nr), en);
            if (toolong && nr != NECO_INVAL) VIO("C17 C25", "net:path-too-long", "serve with a path that does not fit reported %s", ename(nr));
        }
    }
    if (o->exp_set && r < 0 && fault_sum() != f0) o->exp_set = false; // failed on its own before it waited
    fin(o, r >= 0 ? NECO_OK : nr);
}
static void close_own(Act *a, Conn *c, int s) {
    int fd = c->fd[s];
    auto &v = a->ownfds;
    v.erase(std::remove(v.begin(), v.end(), fd), v.end());
    c->open[s] = false;
    fdmap.erase(fd);
    sim_close(fd);
}
static void do_accept(Act *a, int i, int64_t D, int nread) {
    LSock &l = lsocks[(size_t)i];
    if (l.fd < 0 || l.rt != a->rt) return;
    OpRec *o = begin(a, O_ACCEPT, i, D);
    if (a->pend) expect(o, NECO_CANCELED);
    l.busy++;
    int64_t f0 = fault_sum();
    struct sockaddr_storage ss;
    memset(&ss, 0xaa, sizeof ss);
    socklen_t sl = sizeof ss;
    bool wa = o->inv & 1;
    struct sockaddr *sap = wa ? (struct sockaddr *)&ss : nullptr;
    int r = D == NODL ? neco_accept(l.fd, sap, wa ? &sl : nullptr) : neco_accept_dl(l.fd, sap, wa ? &sl : nullptr, D);
    int en = errno, le = neco_lasterr();
    l.busy--;
    check_lasterr(a, O_ACCEPT, r, le, en, false);
    int64_t nr = norm(r, le);
    Conn *c = nullptr;
    int s = 0;
    if (r >= 0) {
        int uid = k_conn_uid(r);
        s = k_side(r);
        if (!k_is_open(r) || uid < 0) VIO("C17", "net:accept-bad-fd", "accept returned a descriptor that is no connection");
        else {
            if (!k_nonblock(r)) VIO("C17", "net:accept-blocking", "accept returned a blocking socket");
            int32_t su;
            memcpy(&su, (char *)&ss + 4, 4);
            if (wa && (sl != 16 || su != uid)) VIO("C17", "net:accept-address", "accept did not report the address of the peer it accepted");
            if (uidacc[uid]++) VIO("C17", "net:accepted-twice", "accept returned a connection twice");
            c = conn_for_uid(uid, a->rt);
            c->fd[s] = r;
            c->open[s] = true;
            if (!c->open[1 - s] && ext_by_uid(uid)) { c->ext = ext_by_uid(uid); c->open[1 - s] = true; }
            fdmap[r] = {c, s};
            a->ownfds.push_back(r);
        }
    } else if (nr != NECO_TIMEDOUT && nr != NECO_CANCELED && fault_sum() == f0) VIO("C17 C25", "net:accept-error", "accept failed with %s (errno %d) without a cause", ename(nr), en);
    fin(o, r >= 0 ? NECO_OK : nr);
    if (!c) return;
    if (c->ext) { // the remote side says something and leaves
        size_t n = 1 + (size_t)(c->id * 37 % 300);
        uint8_t *b = (uint8_t *)malloc(n);
        fillpat(b, n, c->id, 1 - s, 0);
        ext_send(c->ext, b, n);
        free(b);
        c->peer_gone = true;
        ext_shutdown(c->ext);
    }
    for (int j = 0; j < nread && c->open[s]; j++) {
        settle(a);
        int64_t x = do_read(a, c, s, 200, S.now + 3 * MS);
        if (x <= 0) break;
    }
    close_own(a, c, s);
}
static void do_dial(Act *a, int i, int64_t D, int nwrite) {
    std::string net, key, ad = addr_text(i, &net, &key);
    const AddrP &p = P->addrs[(size_t)i];
    OpRec *o = begin(a, O_DIAL, i, D);
    if (net == "unix" && ad.size() > 107) o->cansel = false; // refused at once
    else if (a->pend) expect(o, NECO_CANCELED);
    int64_t f0 = fault_sum();
    bool can = false, hole = false, none = p.kind == 3 || p.kind == 4; // none: the name has no address to try
    if (!key.empty()) can = net_listening_key(key);
    else if (p.kind == 2) { can = p.mode % 5 == NET_ACCEPT || p.mode % 5 == NET_SLOW; hole = p.mode % 5 == NET_BLACKHOLE; }
    else if (p.kind == 3) {
        int m = p.mode;
        for (int j = 0; j < 3; j++, m /= 5) {
            if (!name_fits(p, j)) continue;
            none = false;
            if (m % 5 == NET_ACCEPT || m % 5 == NET_SLOW) can = true;
            if (m % 5 == NET_BLACKHOLE) hole = true; // reached when a fault hits an earlier address
        }
    }
    o->msg = hole;
    o->kto0 = net_kernel_timeouts();
    uint64_t lc0 = net_listen_changes();
    int fds0 = k_open_fds() - k_epoll_fds();
    (void)fds0;
    int r;
    bool direct = (p.kind == 0 || p.kind == 2) && o->inv % 4 == 3, again = false;
    struct sockaddr_in sa2;
    if (direct) { // the same with a socket of our own
        struct sockaddr_in sa;
        memset(&sa, 0, sizeof sa);
        sa.sin_family = AF_INET;
        sa.sin_port = htons((uint16_t)(p.kind == 0 ? 9000 + i : 80));
        std::string ip = ad.substr(0, ad.find(':'));
        inet_pton(AF_INET, ip.c_str(), &sa.sin_addr);
        int fd = sim_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
        if (fd < 0) { o->exp_set = false; o->cansel = false; fin(o, NECO_ERROR); return; }
        a->ownfds.push_back(fd);
        r = D == NODL ? neco_connect(fd, (struct sockaddr *)&sa, sizeof sa) : neco_connect_dl(fd, (struct sockaddr *)&sa, sizeof sa, D);
        int e = errno;
        a->ownfds.erase(std::find(a->ownfds.begin(), a->ownfds.end(), fd));
        if (r == 0) r = fd; else sim_close(fd);
        again = r >= 0 && o->inv % 8 == 7;
        sa2 = sa;
        errno = e;
    } else r = D == NODL ? neco_dial(net.c_str(), ad.c_str()) : neco_dial_dl(net.c_str(), ad.c_str(), D);
    int en = errno, le = neco_lasterr(), gle = neco_gai_lasterr();
    check_lasterr(a, O_DIAL, r, le, en, false);
    int64_t nr = norm(r, le);
    Conn *c = nullptr;
    int s = 0;
    if (r >= 0) {
        int uid = k_conn_uid(r);
        s = k_side(r);
        if (!k_is_open(r) || !k_connected(r)) VIO("C17", "net:dial-unconnected", "dial to %s reported success for a socket that is not connected", ad.c_str());
        else {
            if (!k_nonblock(r)) VIO("C17", "net:dial-blocking", "dial returned a blocking socket");
            std::string peer = k_peer_key(r);
            bool right = none ? false : !key.empty() ? peer == key : p.kind == 2 ? peer == "4:" + ad : false;
            if (p.kind == 3)
                for (int j = 0; j < 3; j++) {
                    char ip[40];
                    name_ip(i, j, ip, sizeof ip);
                    if (name_fits(p, j) && peer == std::string(name_v6(p, j) ? "6:" : "4:") + ip + ":80") right = true;
                }
            if (!right && !none) VIO("C17", "net:dial-wrong-peer", "dial to %s %s connected to %s", net.c_str(), ad.c_str(), peer.c_str());
            if (none) VIO("C17 C24", "net:dial-unresolved", "dial succeeded for a name that does not resolve");
            c = conn_for_uid(uid, a->rt);
            c->fd[s] = r;
            c->open[s] = true;
            if (ext_by_uid(uid) && !c->ext) { c->ext = ext_by_uid(uid); c->open[1 - s] = true; }
            if (!c->ext) c->peer_gone = true; // the acceptor may close at any time
            fdmap[r] = {c, s};
            a->ownfds.push_back(r);
        }
    } else {
        bool still = key.empty() || net_listen_changes() == lc0;
        if (net == "unix" && ad.size() > 107 && nr != NECO_INVAL && nr != NECO_CANCELED && nr != NECO_TIMEDOUT && fault_sum() == f0) VIO("C17 C25", "net:path-too-long", "dial with a path that does not fit reported %s", ename(nr));
        if (can && still && fault_sum() == f0 && !(nr == NECO_TIMEDOUT && S.now >= D) && nr != NECO_CANCELED)
            VIO("C17 C25", "net:dial-failed", "dial to %s failed with %s (errno %d) although a peer accepts", ad.c_str(), ename(nr), en);
        if (r == NECO_GAIERROR && !none && fault_sum() == f0) VIO("C17 C24", "net:dial-gai", "dial to %s reported a lookup failure although the name resolves", ad.c_str());
        if (r == NECO_GAIERROR && fault_sum() == f0 && none) {
            int want = p.kind == 3 ? EAI_NODATA : p.mode & 1 ? EAI_NONAME : EAI_FAIL;
            if (gle != want) VIO("C25 C24", "gai:lasterr", "dial to %s failed to resolve with %d but the last resolver error reads %d", ad.c_str(), want, gle);
        }
        if (none && fault_sum() == f0 && r != NECO_GAIERROR && nr != NECO_TIMEDOUT && nr != NECO_CANCELED) VIO("C17 C24 C25", "net:dial-gai-code", "dial to an unresolvable name reported %s", ename(nr));
    }
    if (r == NECO_GAIERROR) {
        errno = en;
        const char *t = neco_strerror(r);
        if (strcmp(t, gle == EAI_SYSTEM ? strerror(en) : gai_strerror(gle))) VIO("C25", "strerror:gai", "the text of a lookup failure %d reads '%s'", gle, t);
    }
    if (o->exp_set && r < 0 && fault_sum() != f0) o->exp_set = false; // failed on its own before it waited
    fin(o, r >= 0 ? NECO_OK : nr);
    if (!c) return;
    if (again) { // a socket cannot be connected twice
        settle(a);
        OpRec *o2 = begin(a, O_CONNECT, i, NODL);
        if (a->pend) expect(o2, NECO_CANCELED);
        int64_t f2 = fault_sum();
        int r2 = neco_connect(r, (struct sockaddr *)&sa2, sizeof sa2), e2 = errno, l2 = neco_lasterr();
        check_lasterr(a, O_CONNECT, r2, l2, e2, false);
        if (fault_sum() == f2 && !o2->exp_set && (r2 != -1 || e2 != EISCONN)) VIO("C17 C25", "net:connect-twice", "connecting a connected socket returned %d (errno %d)", r2, e2);
        if (!o2->exp_set) o2->cansel = false;
        fin(o2, norm(r2, l2));
    }
    if (nwrite > 0) {
        settle(a);
        if (!c->wbusy[s]) do_write(a, c, s, (size_t)nwrite, S.now + 3 * MS);
    }
    close_own(a, c, s);
}
static void do_gai(Act *a, int i, int64_t D) {
    const AddrP &p = P->addrs[(size_t)i];
    char host[300];
    if (p.kind == 3 || p.kind == 4) snprintf(host, sizeof host, "%s", host_name(i).c_str());
    else snprintf(host, sizeof host, "10.0.0.%d", i + 1);
    OpRec *o = begin(a, O_GAI, i, D);
    int64_t f0 = fault_sum(), fo0 = f0 - (int64_t)R->faults[F_GAI_FAIL];
    size_t gi0 = gai_inj.size();
    struct addrinfo hints, *hp = &hints;
    memset(&hints, 0, sizeof hints);
    int var = (int)(o->inv % 6), fam = AF_UNSPEC, sock = SOCK_STREAM, proto = 0, port = o->inv % 5 == 0 ? 443 : 80;
    if (var == 1) hints.ai_family = fam = AF_INET;
    if (var == 2) hints.ai_family = fam = AF_INET6;
    if (var == 3) { sock = SOCK_DGRAM; hints.ai_protocol = proto = IPPROTO_UDP; }
    hints.ai_socktype = sock;
    if (var == 4) hp = nullptr;
    if (var == 5) hints.ai_flags = AI_ADDRCONFIG;
    char svc[8];
    snprintf(svc, sizeof svc, "%d", port);
    if (o->inv % 7 == 0) port = 0;
    struct addrinfo *res = nullptr;
    const char *sp = port ? svc : nullptr;
    int r = D == NODL ? neco_getaddrinfo(host, sp, hp, &res) : neco_getaddrinfo_dl(host, sp, hp, &res, D);
    int gle = neco_gai_lasterr();
    int en = errno, le = neco_lasterr();
    int64_t nr;
    if (r == 0) nr = NECO_OK;
    else if (r == EAI_SYSTEM) nr = le;
    else nr = NECO_GAIERROR;
    {
        int want = 0;
        if (r == EAI_SYSTEM) {
            switch (en) { case EINVAL: want = NECO_INVAL; break; case EPERM: want = NECO_PERM; break; case ENOMEM: want = NECO_NOMEM; break; case ECANCELED: want = NECO_CANCELED; break; case ETIMEDOUT: want = NECO_TIMEDOUT; break; default: want = NECO_ERROR; }
        } else if (r) want = NECO_GAIERROR;
        if (want != le) VIO("C25", "lasterr:mismatch", "a lookup returned %d but the last error reads %s", r, ename(le));
    }
    if (r == 0) {
        if (p.kind == 4) VIO("C24", "gai:wrong-success", "lookup of an unknown name succeeded");
        std::vector<std::string> want;
        if (p.kind == 3) {
            for (int j = 0; j < 3; j++) {
                char ip[40];
                name_ip(i, j, ip, sizeof ip);
                if (fam == AF_UNSPEC || (fam == AF_INET6) == name_v6(p, j)) want.push_back(ip);
            }
        } else if (fam != AF_INET6) want.push_back(host);
        size_t n = 0;
        for (struct addrinfo *x = res; x; x = x->ai_next, n++) {
            char ip[60];
            if (x->ai_family == AF_INET6) inet_ntop(AF_INET6, &((struct sockaddr_in6 *)x->ai_addr)->sin6_addr, ip, sizeof ip);
            else inet_ntop(AF_INET, &((struct sockaddr_in *)x->ai_addr)->sin_addr, ip, sizeof ip);
            int pt = ntohs(((struct sockaddr_in *)x->ai_addr)->sin_port);
            if (n >= want.size() || want[n] != ip || pt != port) VIO("C24", "gai:wrong-result", "lookup of %s returned %s port %d instead of %s port %d", host, ip, pt, n < want.size() ? want[n].c_str() : "nothing", port);
            if (hp && (x->ai_socktype != sock || x->ai_protocol != proto || x->ai_flags != hints.ai_flags)) VIO("C24", "gai:hints", "the hints of a lookup did not reach the resolver");
        }
        if (n != want.size()) VIO("C24", "gai:wrong-count", "lookup of %s returned %zu addresses instead of %zu", host, n, want.size());
        sim_freeaddrinfo(res);
    } else if (fault_sum() == f0 && nr != NECO_TIMEDOUT && nr != NECO_CANCELED) {
        int want = 0;
        if (p.kind == 4) want = p.mode & 1 ? EAI_NONAME : EAI_FAIL;
        else if (p.kind == 3) {
            bool any = false;
            for (int j = 0; j < 3; j++) if (fam == AF_UNSPEC || (fam == AF_INET6) == name_v6(p, j)) any = true;
            if (!any) want = EAI_NODATA;
        } else if (fam == AF_INET6) want = EAI_ADDRFAMILY;
        if (!want) VIO("C24 C25", "gai:error", "lookup of %s failed with %d (errno %d) without a cause", host, r, en);
        else if (r != want) VIO("C24 C25", "gai:wrong-error", "lookup reported error %d instead of the resolver's %d", r, want);
        else if (gle != r) VIO("C25 C24", "gai:lasterr", "a lookup failed with %d but the last resolver error reads %d", r, gle);
    } else if (nr != NECO_TIMEDOUT && nr != NECO_CANCELED && fault_sum() - (int64_t)R->faults[F_GAI_FAIL] == fo0) {
        // only the resolver failed: its code and errno are what the caller sees
        bool ok = false;
        for (size_t j = gi0; j < gai_inj.size(); j++)
            if (gai_inj[j].first == r && (r != EAI_SYSTEM || gai_inj[j].second == en)) ok = true;
        if (r == EAI_SYSTEM ? !ok : r == EAI_MEMORY && !ok) VIO("C24 C25", "gai:failure-code", "the resolver failed; the caller sees %d, errno %d, which it did not report", r, en);
    }
    fin(o, nr);
}

// ------------------------------------------------------------ work, stack, registers
static void work_fn(void *arg) {
    OpRec *o = (OpRec *)arg;
    if (o->st != 0) { VIO("C19", "work:late", "background work runs after its call returned"); return; }
    if (++o->workruns > 1) VIO("C19", "work:twice", "background work runs twice");
    if (!variant_info.noworkers && rt_of_thread() >= 0) VIO("C19", "work:foreground", "background work runs on the scheduler thread");
    o->wstart = ++S.seq;
    tracef("%.6f work of %s starts on thread %d", (double)S.now / 1e9 - 1000, aname(o->act), thr_self());
    int pin = o->wpin;
    if (pin >= 0) {
        pin = o->act->rt * 1000 + pin;
        if (pinrun[pin]) VIO("C19", "work:overlap", "two works pinned to thread %d run at the same time", o->wpin);
        pinrun[pin] = o;
        auto &q = pinq[pin];
        // a full ring or a failed thread makes a submitter retry, which gives up its place
        if (variant_info.ringsize > 16 && !R->faults[F_THREAD_FAIL])
            for (auto e : q)
                if (e->inv < o->inv && e->st == 0 && !e->wstart && e != o) { VIO("C19", "work:order", "work pinned to thread %d ran before work submitted earlier", o->wpin); break; }
    }
    int cost = o->obj;
    for (int i = 0; i < 3; i++) sim_point();
    if (cost > 0 && !variant_info.noworkers) {
        struct timespec ts = {0, (long)cost * 1000};
        sim_nanosleep(&ts, nullptr);
    }
    sim_point();
    if (pin >= 0) pinrun[pin] = nullptr;
    tracef("%.6f work of %s ends", (double)S.now / 1e9 - 1000, aname(o->act));
    o->wend = ++S.seq;
}
static void do_work(Act *a, int pin, int cost) {
    OpRec *o = begin(a, O_WORK, cost);
    o->cansel = false;
    o->wpin = pin;
    if (pin >= 0) pinq[a->rt * 1000 + pin].push_back(o);
    int64_t r = neco_work(pin, work_fn, o);
    int en = errno;
    check_lasterr(a, O_WORK, r, neco_lasterr(), en, false);
    if (o->workruns != 1 || !o->wend) VIO("C19", "work:incomplete", "%s: neco_work returned %s after %d runs%s", aname(a), ename(r), o->workruns, o->wend ? "" : " before the work finished");
    expect(o, NECO_OK);
    fin(o, r);
}

static bool stack_overlap(Act *a) {
    for (Act *b : acts)
        if (b != a && b->slo && a->slo < b->shi && b->slo < a->shi) return true;
    return false;
}
__attribute__((noinline)) static uint32_t stack_rec(Act *a, int depth, int frame, int how, uint32_t seed) {
    volatile uint8_t *b = (volatile uint8_t *)alloca((size_t)frame);
    uintptr_t lo = (uintptr_t)b;
    if (!a->slo || lo < a->slo) a->slo = lo;
    size_t step = frame > 8192 ? 1024 : 64;
    for (size_t i = 0; i < (size_t)frame; i += step) b[i] = (uint8_t)(seed + i / step);
    double fa = seed * 1.5, fb = depth + 0.25;
    uint32_t below = 0;
    if (depth > 0) below = stack_rec(a, depth - 1, frame, how, seed * 31 + 7);
    else {
        if (stack_overlap(a)) VIO("C23", "stack:overlap", "%s uses stack memory of another live coroutine", aname(a));
        if (how == 1) do_yield(a);
        else if (how == 2) do_sleep(a, S.now + 100000, true, 100000);
        else if (how == 3) { do_yield(a); do_yield(a); do_sleep(a, S.now + 400000, true, 400000); }
    }
    for (size_t i = 0; i < (size_t)frame; i += step)
        if (b[i] != (uint8_t)(seed + i / step)) {
            VIO("C23 C20", "stack:corrupt", "%s: a local variable changed across a switch", aname(a));
            sim_end_run();
        }
    if (fa != seed * 1.5 || fb != depth + 0.25) VIO("C23", "stack:corrupt-fp", "%s: a floating-point local changed across a switch", aname(a));
    return below + seed;
}
#if defined(__x86_64__)
extern "C" int regs_probe(void *fn, uint64_t v);
__asm__(
    ".text\n.globl regs_probe\n.type regs_probe,@function\nregs_probe:\n"
    "pushq %rbx\npushq %rbp\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "subq $8,%rsp\n"
    "movq %rsi,%rbx\nleaq 1(%rsi),%rbp\nleaq 2(%rsi),%r12\nleaq 3(%rsi),%r13\nleaq 4(%rsi),%r14\nleaq 5(%rsi),%r15\n"
    "movq %rsi,(%rsp)\n"
    "callq *%rdi\n"
    "xorl %eax,%eax\nmovq (%rsp),%rcx\n"
    "cmpq %rcx,%rbx\nje 1f\norl $1,%eax\n1: addq $1,%rcx\n"
    "cmpq %rcx,%rbp\nje 1f\norl $2,%eax\n1: addq $1,%rcx\n"
    "cmpq %rcx,%r12\nje 1f\norl $4,%eax\n1: addq $1,%rcx\n"
    "cmpq %rcx,%r13\nje 1f\norl $8,%eax\n1: addq $1,%rcx\n"
    "cmpq %rcx,%r14\nje 1f\norl $16,%eax\n1: addq $1,%rcx\n"
    "cmpq %rcx,%r15\nje 1f\norl $32,%eax\n1:\n"
    "addq $8,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbp\npopq %rbx\nret\n"
    ".size regs_probe,.-regs_probe\n.section .note.GNU-stack,\"\",@progbits\n.text\n");
#endif
static void regs_yield() { neco_yield(); }
static void do_regs(Act *a, int n) {
#if defined(__x86_64__)
    OpRec *o = begin(a, O_YIELD, -1);
    o->cansel = false;
    int bad = regs_probe((void *)regs_yield, 0x1122334455660000ull + (uint64_t)n * 0x10001 + (uint64_t)a->idx * 0x100);
    if (bad) VIO("C23", "regs:clobbered", "%s: callee-saved registers (mask %x) changed across a yield", aname(a), bad);
    expect(o, NECO_OK);
    fin(o, NECO_OK);
    on_yield(a);
#else
    (void)n;
    do_yield(a);
#endif
}

// ------------------------------------------------------------ start
static int nvargs(Act *t) { return 1 + t->p->nargs; }
static bool do_spawn(Act *a, Act *t) {
    if (t->st != Act::IDLE || t->rt != a->rt) return false;
    OpRec *o = begin(a, O_SPAWN, t->idx);
    o->cansel = false;
    int fail0 = (int)mem_failed_total;
    t->starter = a->id;
    t->st = Act::STARTED;
    t->entered = 0;
    t->ctype = P->env_ctype == 1 ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    t->cstate = P->env_cstate ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE;
    void *av[400];
    av[0] = t;
    for (int i = 0; i < (t->p->nargs > 6 ? t->p->nargs : 6); i++) { t->expargs[i] = (int64_t)mix32((uint64_t)t->idx * 77 + (uint64_t)i + S.seq) * 4096 + i; av[1 + i] = (void *)t->expargs[i]; }
    int64_t r;
    if (t->p->gen) {
        ChanM *g = chans[(size_t)t->gen];
        g->made = true;
        g->refs = 1;
        g->sclosed = false;
        g->gact = t;
        neco_gen **gp = (neco_gen **)&g->c;
        if ((t->idx & 1) || t->p->nargs > 6) r = neco_gen_startv(gp, (size_t)g->size, act_main, nvargs(t), av);
        else r = neco_gen_start(gp, (size_t)g->size, act_main, nvargs(t), av[0], av[1], av[2], av[3], av[4], av[5], av[6]);
    } else {
        if ((t->idx & 1) || t->p->nargs > 6) r = neco_startv(act_main, nvargs(t), av);
        else r = neco_start(act_main, nvargs(t), av[0], av[1], av[2], av[3], av[4], av[5], av[6]);
    }
    int en = errno, le = neco_lasterr();
    check_lasterr(a, O_SPAWN, r, le, en, false);
    if (t->p->gen && r == NECO_OK) gen_blocks.push_back(chans[(size_t)t->gen]->c);
    if (r != NECO_OK) {
        if (t->entered) VIO("C12 C20", "start:failed-but-ran", "a start that reported %s ran its function", ename(r));
        if (r == NECO_NOMEM && mem_failed_total == fail0) VIO("C12 C20 C25", "start:spurious-nomem", "start reported out of memory although nothing failed");
        else if (r != NECO_NOMEM) VIO("C12 C25", "start:error", "start reported %s", ename(r));
        t->st = Act::IDLE;
        if (t->p->gen) { chans[(size_t)t->gen]->made = false; chans[(size_t)t->gen]->refs = 0; }
    } else if (t->entered) {
        int64_t li = neco_lastid();
        if (li != t->id) VIO("C12", "start:lastid", "the last-started id reads %lld, the coroutine's own id is %lld", (long long)li, (long long)t->id);
    }
    fin(o, r);
    return r == NECO_OK;
}

// ------------------------------------------------------------ cancel
static void do_cancel(Act *a, Act *t, int64_t D) {
    if (t->st == Act::IDLE || t->rt != a->rt) return;
    OpRec *o = begin(a, O_CANCEL, t->idx, D);
    R->faults[F_CANCEL]++;
    uint64_t tstart = S.seq;
    (void)tstart;
    bool done0 = t->st == Act::DONE, pend0 = t->pend || t->spend;
    t->ncw++;
    bool dis0 = t->cstate == NECO_CANCEL_DISABLE || t->st == Act::TERM;
    if (done0) { expect(o, NECO_NOTFOUND); o->cansel = false; }
    else if (a->pend && t != a) expect(o, NECO_CANCELED);
    else if (a->pend) expect(o, NECO_CANCELED);
    else if (D != NODL && D <= S.now + MS) { if (!dis0) t->maybe.push_back(o); else o->waitdis = true; }
    else if (t->st == Act::TERM) o->waitdis = true;
    else if (!dis0) { t->pend = true; o->flo = true; expect(o, NECO_OK); }
    else { o->waitdis = true; o->blocked = true; }
    int64_t r = (D == NODL ? neco_cancel(t->id) : neco_cancel_dl(t->id, D));
    int en = errno;
    check_lasterr(a, O_CANCEL, r, neco_lasterr(), en, false);
    if (r == NECO_TIMEDOUT && o->exp_set && o->exp == NECO_OK && rtops[a->rt & 7] == o->rop && S.now > D) {
        // the deadline passed between the call and its check
        o->exp_set = false;
        if (!pend0) t->pend = t->spend = false;
    }
    if (r == NECO_OK && !o->exp_set) {
        if (o->waitdis && t->st == Act::RUN && t->cstate == NECO_CANCEL_DISABLE && !o->flo)
            VIO("C10", "cancel:ignored-disable", "%s: a cancel took effect although %s has cancellation disabled", aname(a), aname(t));
        if (t->st == Act::RUN && t->lastconsume < o->inv && !(o->waitdis && !o->flo)) {
            // effect certain and not consumed yet
            (t->cstate == NECO_CANCEL_DISABLE ? t->spend : t->pend) = true;
        }
        // otherwise it stays in t->maybe until the target settles
    } else if (r == NECO_NOTFOUND && t->st != Act::DONE) VIO("C10 C12 C25", "cancel:false-notfound", "%s: cancel of the live coroutine %s reported not found", aname(a), aname(t));
    if ((r != NECO_OK && (!o->flo || !o->exp_set)) || (r == NECO_OK && (t->pend || t->spend)))
        for (auto v : {&t->maybe, &t->smaybe}) v->erase(std::remove(v->begin(), v->end(), o), v->end());
    fin(o, r);
}
static void m_cstate(Act *a, int state) {
    if (state == NECO_CANCEL_ENABLE && a->cstate == NECO_CANCEL_DISABLE) {
        // cancels that waited may now take effect
        for (Act *b : acts)
            for (OpRec *c = b->cur; c; c = c->prev)
                if (c->k == O_CANCEL && c->obj == a->idx && c->waitdis && c->st == 0) { c->flo = true; a->maybe.push_back(c); }
    }
    if (state == NECO_CANCEL_DISABLE) {
        // a cancel that is pending waits
        if (a->pend) a->spend = true;
        a->pend = false;
        a->smaybe.insert(a->smaybe.end(), a->maybe.begin(), a->maybe.end());
        a->maybe.clear();
    } else {
        if (a->spend) a->pend = true;
        a->spend = false;
        a->maybe.insert(a->maybe.end(), a->smaybe.begin(), a->smaybe.end());
        a->smaybe.clear();
    }
    a->cstate = state;
}
static void do_cstate(Act *a, int state) {
    OpRec *o = begin(a, O_CSTATE, state);
    o->cansel = false;
    int old = 0, want = a->cstate;
    m_cstate(a, state);
    int64_t r = neco_setcancelstate(state, &old);
    int en = errno;
    check_lasterr(a, O_CSTATE, r, neco_lasterr(), en, false);
    if (old != want && a->st == Act::RUN) VIO("C10 C25", "cancel:oldstate", "%s: the previous cancel state reads %d, actually %d", aname(a), old, want);
    expect(o, NECO_OK);
    fin(o, r);
}

// ------------------------------------------------------------ one operation
static int run_ops(Act *a, int pos, bool nested);
static Act *target(int i) { return i >= 0 && i < (int)P->acts.size() ? acts[(size_t)i] : nullptr; }

static bool rand_off[8];
static void do_pipe(Act *a, bool bare) {
    static const int ex[] = {F_SYSCALL_FAIL, F_EMFILE, F_EPOLL_CTL, F_EPOLL_CREATE, F_MALLOC_FAIL, F_MMAP_FAIL, F_MPROTECT_FAIL, F_IO_ERROR, F_CONN_REFUSED, F_THREAD_FAIL};
    auto excuse = [&] { int64_t n = mem_failed_total; for (int f : ex) n += (int64_t)R->faults[f]; return n; };
    bool dis = a->cstate == NECO_CANCEL_DISABLE;
    // making a pipe takes several steps and is not interrupted by a cancel: bare relies on that
    if (!dis && !bare) do_cstate(a, NECO_CANCEL_DISABLE);
    if (!dis && bare) m_cstate(a, NECO_CANCEL_DISABLE);
    rand_off[a->rt] = true; // it draws random numbers
    npipe[a->rt & 7]++;
    OpRec *o = begin(a, O_PIPE, -1);
    o->cansel = false;
    int64_t e0 = excuse();
    int fds[2] = {-7, -8};
    int r = neco_pipe(fds), en = errno;
    check_lasterr(a, O_PIPE, r, neco_lasterr(), en, r != 0);
    npipe[a->rt & 7]--;
    if (!dis && bare) m_cstate(a, NECO_CANCEL_ENABLE);
    fin(o, r);
    int left = -net_foreign_paths();
    for (int n : npipe) left += n;
    if (left < 0) VIO("C20 C17", "pipe:leftover", "a socket file of a finished pipe is left behind");
    if (r == 0) {
        if (fds[0] < 0 || fds[1] < 0 || !k_connected(fds[0]) || !k_connected(fds[1]) || k_conn_uid(fds[0]) != k_conn_uid(fds[1]) || k_side(fds[0]) == k_side(fds[1])) VIO("C17", "pipe:unconnected", "the ends %d and %d of a new pipe are not connected to each other", fds[0], fds[1]);
        else if (!k_nonblock(fds[0]) || !k_nonblock(fds[1])) VIO("C17", "pipe:blocking", "an end of a new pipe is in blocking mode");
        else if (k_avail(fds[0]) || k_avail(fds[1])) VIO("C17", "pipe:not-empty", "a new pipe is not empty");
        for (int i = 0; i < 2; i++) if (k_is_open(fds[i])) sim_close(fds[i]);
    } else {
        if (r != -1 || fds[0] != -7 || fds[1] != -8) VIO("C17", "pipe:result", "a failing pipe returned %d and descriptors %d, %d", r, fds[0], fds[1]);
        else if (excuse() == e0 && S.now - o->tinv < 4900 * MS) VIO("C17 C22", "pipe:failed", "making a pipe failed with errno %d although nothing went wrong", en);
    }
    if (!dis && !bare) do_cstate(a, NECO_CANCEL_ENABLE);
}
static void nop_main(int, void **) {}
// --- the seeded generator: every byte a runtime hands out is the next of one sequence
struct RandE {
    bool seed = false, known = false, done = false;
    int64_t val = 0, old = 0;
    size_t n = 0, parts = 0, next = 0;
    std::vector<uint8_t> b;
};
static std::vector<RandE *> rand_ev[8]; // per runtime, in the order of the calls
static std::vector<uint8_t> rand_ref;
static RandE *rand_begin(Act *a, size_t n) {
    RandE *e = new RandE;
    e->n = n;
    e->parts = (n + 255) / 256;
    e->b.resize(n + 16);
    for (size_t i = 0; i < e->b.size(); i++) e->b[i] = (uint8_t)(0xA5 ^ (i * 29));
    rand_ev[a->rt].push_back(e);
    return e;
}
static void rand_end(RandE *e, int64_t r) {
    e->done = r == NECO_OK;
    for (size_t i = e->n; i < e->b.size(); i++) if (e->b[i] != (uint8_t)(0xA5 ^ (i * 29))) { VIO("C26 C20", "rand:overrun", "a request for %zu random bytes wrote beyond them", e->n); break; }
}
static void rand_seed(Act *a, int64_t v, int wantold) {
    RandE *e = new RandE;
    e->seed = true;
    e->val = v;
    e->known = wantold != 0;
    int r = neco_rand_setseed(v, wantold ? &e->old : nullptr);
    if (r != NECO_OK) VIO("C26 C25", "rand:setseed", "setting the seed returned %s", ename(r));
    rand_ev[a->rt].push_back(e);
}
static void rand_check(Act *a) {
    std::vector<RandE *> &ev = rand_ev[a->rt];
    if (rand_off[a->rt]) return;
    int64_t fin_state = 0, tries = 0;
    if (neco_rand_setseed(0, &fin_state) != NECO_OK) return;
    bool cut = false;
    std::vector<RandE *> open;
    // the state after generating n bytes from a state, if these are the bytes
    auto gen = [&](int64_t st, const uint8_t *want, size_t n, int64_t *out) {
        uint8_t b[256];
        if (++tries > 4000 || neco_rand_setseed(st, nullptr) != NECO_OK || neco_rand(b, n, NECO_PRNG) != NECO_OK || neco_rand_setseed(0, out) != NECO_OK) { cut = true; return false; }
        return memcmp(b, want, n) == 0;
    };
    std::function<bool(size_t, int64_t, bool)> go = [&](size_t i, int64_t st, bool known) {
        if (cut) return true;
        for (size_t k = 0; k < open.size(); k++) {
            RandE *e = open[k];
            if (e->next == e->parts || e->next == 0) continue;
            size_t off = e->next * 256, n = std::min<size_t>(256, e->n - off);
            int64_t ns = 0;
            if (!gen(st, &e->b[off], n, &ns)) { if (cut) return true; continue; }
            e->next++;
            if (go(i, ns, known)) return true;
            e->next--;
        }
        if (i == ev.size()) {
            for (auto e : open) if (e->done && e->next != e->parts) return false;
            return st == fin_state;
        }
        RandE *e = ev[i];
        if (e->seed) return (!known || !e->known || e->old == st) && go(i + 1, e->val, true);
        if (!e->parts) return go(i + 1, st, known);
        int64_t ns = 0;
        if (gen(st, &e->b[0], std::min<size_t>(256, e->n), &ns)) {
            e->next = 1;
            open.push_back(e);
            if (go(i + 1, ns, known)) return true;
            open.pop_back();
            e->next = 0;
        }
        if (cut) return true;
        return !e->done && go(i + 1, st, known);
    };
    if (!go(0, 0, false) && !cut) VIO("C26", "rand:sequence", "the random bytes of %s's runtime are not the sequence of the seeds that were set", aname(a));
    // every runtime of the process gives the same bytes for the same seed
    std::vector<uint8_t> b(67);
    if (neco_rand_setseed(77, nullptr) != NECO_OK || neco_rand(b.data(), b.size(), NECO_PRNG) != NECO_OK) return;
    if (rand_ref.empty()) rand_ref = b;
    else if (rand_ref != b) VIO("C26 C22", "rand:runtimes-differ", "two runtimes give different bytes for the same seed");
    bool same = true;
    for (uint8_t x : b) if (x != b[0]) same = false;
    if (same) VIO("C26", "rand:constant", "67 random bytes are all the same");
}

static void exec(Act *a, const Op &op) {
    settle(a);
    int64_t D = NODL;
    auto dl = [&](int d) {
        if ((d == FOREVER || d == -4) && a->cstate == NECO_CANCEL_DISABLE) d = 3000;
        D = mkdl(d);
        if (D != NODL) R->faults[F_DEADLINE]++;
        return D;
    };
    switch (op.k) {
    case O_NOP: break;
    case O_YIELD: for (int i = 0; i < std::max(1, op.a[0]) && a->st == Act::RUN; i++) do_yield(a); break;
    case O_SLEEP: {
        int64_t ns = op.a[0] < 0 ? op.a[0] : (int64_t)op.a[0] * 1000, until;
        if (ns == -7 || ns == -8) ns = a->cstate == NECO_CANCEL_DISABLE ? 5000 : ns == -7 ? INT64_MAX : INT64_MAX - 900000000000ll; // until cancelled
        if (ns == -9) ns = INT64_MIN;
        if (__builtin_add_overflow(S.now, ns, &until)) until = NODL;
        do_sleep(a, until, true, ns);
        break;
    }
    case O_SLEEPDL: do_sleep(a, op.a[0] == FOREVER ? S.now + 2 * MS : dl(op.a[0] == -4 ? -2 : op.a[0]), false, 0); break;
    case O_BUSY: sim_advance(S.now + (int64_t)op.a[0] * 1000); break;
    case O_SPAWN: if (target(op.a[0])) do_spawn(a, target(op.a[0])); break;
    case O_JOIN: {
        Act *t = target(op.a[0]);
        if (!t || t->st == Act::IDLE || t->rt != a->rt) break;
        OpRec *o = begin(a, O_JOIN, t->idx, dl(op.a[1]));
        if (t->st == Act::DONE) { expect(o, NECO_OK); o->cansel = false; }
        else if (a->pend) expect(o, NECO_CANCELED);
        else if (t == a && D > S.now + MS) expect(o, NECO_PERM);
        int64_t r = (D == NODL ? neco_join(t->id) : neco_join_dl(t->id, D));
        int en = errno;
        check_lasterr(a, O_JOIN, r, neco_lasterr(), en, false);
        if (t == a && r == NECO_TIMEDOUT && S.now > D && o->exp == NECO_PERM) o->exp_set = false;
        if (r == NECO_OK && t->st != Act::DONE) VIO("C12 C11", "join:early", "%s: join of %s returned before it ended", aname(a), aname(t));
        if (r != NECO_OK && r != NECO_TIMEDOUT && r != NECO_CANCELED && !(t == a && r == NECO_PERM)) VIO("C12 C25", "join:result", "%s: join returned %s", aname(a), ename(r));
        fin(o, r);
        break;
    }
    case O_SUSPEND: {
        OpRec *o = begin(a, O_SUSPEND, -1, dl(op.a[0]));
        if (a->pend) expect(o, NECO_CANCELED); else o->blocked = true;
        int64_t r = (D == NODL ? neco_suspend() : neco_suspend_dl(D));
        int en = errno;
        check_lasterr(a, O_SUSPEND, r, neco_lasterr(), en, false);
        if (r == NECO_OK && !o->handed) VIO("C12", "suspend:woke", "%s: a suspend ended without resume, deadline or cancel", aname(a));
        if (r != NECO_OK && r != NECO_TIMEDOUT && r != NECO_CANCELED) VIO("C12 C25", "suspend:result", "%s: suspend returned %s", aname(a), ename(r));
        fin(o, r);
        break;
    }
    case O_RESUME: {
        Act *t = target(op.a[0]);
        if (!t || t->st == Act::IDLE || t->st == Act::STARTED || t->rt != a->rt) break;
        OpRec *o = begin(a, O_RESUME, t->idx);
        o->cansel = false;
        if (t->st == Act::DONE) expect(o, NECO_NOTFOUND);
        else if (t->cur && t->cur->k == O_SUSPEND) {
            // one that was resumed, cancelled or timed out but has not run yet may count as either
            if (!t->cur->handed && !t->pend && t->cur->D > S.now + MS) expect(o, NECO_OK);
            t->cur->handed = true;
        }
        else expect(o, NECO_NOTSUSPENDED);
        int64_t r = neco_resume(t->id);
        int en = errno;
        check_lasterr(a, O_RESUME, r, neco_lasterr(), en, false);
        if (r != NECO_OK && r != NECO_NOTSUSPENDED && r != NECO_NOTFOUND) VIO("C12 C25", "resume:result", "%s: resume returned %s", aname(a), ename(r));
        fin(o, r);
        break;
    }
    case O_CANCEL: if (target(op.a[0])) do_cancel(a, target(op.a[0]), dl(op.a[1])); break;
    case O_CSTATE: do_cstate(a, op.a[0] ? NECO_CANCEL_ENABLE : NECO_CANCEL_DISABLE); break;
    case O_CTYPE: {
        OpRec *o = begin(a, O_CTYPE, op.a[0]);
        o->cansel = false;
        int old = 0, want = a->ctype;
        a->ctype = op.a[0] ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
        int64_t r = neco_setcanceltype(a->ctype, &old);
        int en = errno;
        check_lasterr(a, O_CTYPE, r, neco_lasterr(), en, false);
        if (old != want) VIO("C10 C25", "cancel:oldtype", "%s: the previous cancel type reads %d, actually %d", aname(a), old, want);
        expect(o, NECO_OK);
        fin(o, r);
        break;
    }
    case O_EXIT: {
        OpRec *o = begin(a, O_EXIT, -1);
        o->cansel = false;
        neco_exit();
        VIO("C11", "exit:returned", "%s: exit returned to its caller", aname(a));
        fin(o, 0);
        break;
    }
    case O_STATS: {
        neco_stats s;
        memset(&s, 0, sizeof s);
        int64_t r = neco_getstats(&s);
        int en = errno;
        check_lasterr(a, O_STATS, r, neco_lasterr(), en, false);
        int64_t l[10] = {(int64_t)s.coroutines, (int64_t)s.sleepers, (int64_t)s.evwaiters, (int64_t)s.sigwaiters, (int64_t)s.senders, (int64_t)s.receivers, (int64_t)s.locked, (int64_t)s.waitgroupers, (int64_t)s.condwaiters, (int64_t)s.suspended};
        check_stats(a->rt, false, "statistics", l);
        break;
    }
    // ---- channels
    case O_SEND: case O_GYIELD: {
        int ci = op.k == O_GYIELD ? a->gen : op.a[0];
        if (ci < 0 || ci >= (int)chans.size()) break;
        ChanM *c = chans[(size_t)ci];
        if (!c->made || c->rt != a->rt || (op.k == O_SEND && (c->isgen || (c->refmode && !a->chref)))) break;
        OpRec *o = begin(a, op.k, ci, dl(op.k == O_GYIELD ? op.a[0] : op.a[1]));
        uint32_t m = c->next++;
        uint8_t b[3016];
        mkmsg(b, c->size, ci, m);
        m_send(o, c, m, false);
        int64_t r = op.k == O_GYIELD ? neco_gen_yield_dl(b, D) : D == NODL ? neco_chan_send(c->c, b) : neco_chan_send_dl(c->c, b, D);
        int en = errno, le = neco_lasterr();
        memset(b, 0xDD, sizeof b);
        check_lasterr(a, op.k, r, le, en, false);
        fin_chan(o, r, false);
        break;
    }
    case O_BCAST: {
        ChanM *c = chans[(size_t)op.a[0]];
        if (!c->made || c->rt != a->rt || (c->refmode && !a->chref)) break;
        OpRec *o = begin(a, O_BCAST, op.a[0]);
        uint32_t m = c->next++;
        uint8_t b[3016];
        mkmsg(b, c->size, op.a[0], m);
        m_send(o, c, m, true);
        int64_t r = neco_chan_broadcast(c->c, b);
        int en = errno, le = neco_lasterr();
        memset(b, 0xDD, sizeof b);
        check_lasterr(a, O_BCAST, r, le, en, false);
        fin(o, r);
        break;
    }
    case O_RECV: case O_TRYRECV: case O_GNEXT: {
        int ci = op.a[0];
        if (op.k == O_GNEXT) { Act *t = target(op.a[0]); if (!t || t->gen < 0 || t == a) break; ci = t->gen; }
        if (ci < 0 || ci >= (int)chans.size()) break;
        ChanM *c = chans[(size_t)ci];
        if (!c->made || c->rt != a->rt || (op.k != O_GNEXT && c->refmode && !a->chref)) break;
        if (op.k == O_GNEXT) {
            if (c->refs <= 0 || a->genref >= 0) break;
            if (neco_gen_retain((neco_gen *)c->c) != NECO_OK) VIO("C05", "gen:retain", "retaining a generator failed");
            c->refs++;
            a->genref = ci;
        }
        OpRec *o = begin(a, op.k, ci, op.k == O_TRYRECV ? NODL : dl(op.a[1]));
        uint8_t b[3016];
        memset(b, 0xEE, sizeof b);
        m_recv(o, c, op.k == O_TRYRECV);
        int64_t r = op.k == O_GNEXT ? neco_gen_next_dl((neco_gen *)c->c, b, D) : op.k == O_TRYRECV ? neco_chan_tryrecv(c->c, b) : D == NODL ? neco_chan_recv(c->c, b) : neco_chan_recv_dl(c->c, b, D);
        int en = errno, le = neco_lasterr();
        check_lasterr(a, op.k, r, le, en, false);
        const char *ct = op.k == O_GNEXT ? "C05" : "C01 C02";
        if (r == NECO_OK && o->handed && !o->hclosed && !okmsg(b, c->size, ci, o->msg)) {
            violation(ct, "chan:wrong-message", "%s: %s on channel %d returned a message other than message %u", aname(a), op_names[op.k], ci, o->msg);
            sim_end_run();
        }
        for (int i = c->size; i < 272; i++) if (b[i] != 0xEE) { violation(tg(ct, "C20").c_str(), "chan:overrun", "a receive wrote past its buffer"); break; }
        fin_chan(o, r, false);
        if (op.k == O_GNEXT && a->genref >= 0) {
            a->genref = -1;
            c->refs--;
            neco_gen_release((neco_gen *)c->c);
        }
        break;
    }
    case O_CLOSE: case O_GCLOSE: {
        int ci = op.a[0];
        if (op.k == O_GCLOSE) { Act *t = target(op.a[0]); if (!t || t->gen < 0 || t == a) break; ci = t->gen; }
        if (ci < 0 || ci >= (int)chans.size()) break;
        ChanM *c = chans[(size_t)ci];
        if (!c->made || c->rt != a->rt || (op.k == O_CLOSE && c->refmode && !a->chref) || (op.k == O_GCLOSE && c->refs <= 0)) break;
        if (op.k == O_GCLOSE) {
            if (a->genref >= 0) break;
            neco_gen_retain((neco_gen *)c->c);
            c->refs++;
            a->genref = ci;
        }
        OpRec *o = begin(a, op.k, ci);
        o->cansel = false;
        expect(o, c->sclosed ? NECO_CLOSED : NECO_OK);
        if (!c->sclosed) m_close(c);
        int64_t r = op.k == O_GCLOSE ? neco_gen_close((neco_gen *)c->c) : neco_chan_close(c->c);
        int en = errno;
        check_lasterr(a, op.k, r, neco_lasterr(), en, false);
        fin(o, r);
        if (op.k == O_GCLOSE && a->genref >= 0) { a->genref = -1; c->refs--; neco_gen_release((neco_gen *)c->c); }
        break;
    }
    case O_GREL: { // the owner's reference
        Act *t = target(op.a[0]);
        if (!t || t->gen < 0 || t->rt != a->rt) break;
        ChanM *c = chans[(size_t)t->gen];
        if (!c->made || !c->gact || c->refs <= 0) break;
        c->gact = nullptr;
        c->refs--;
        int64_t r = neco_gen_release((neco_gen *)c->c);
        if (r != NECO_OK) VIO("C05", "gen:release", "releasing a generator returned %s", ename(r));
        break;
    }
    case O_RETAIN: {
        ChanM *c = chans[(size_t)op.a[0]];
        if (!c->made || c->rt != a->rt || (c->refmode && !a->chref)) break;
        if (neco_chan_retain(c->c) != NECO_OK) { VIO("C01 C20", "chan:retain", "retaining a channel failed"); break; }
        c->refs++;
        c->refs--;
        if (neco_chan_release(c->c) != NECO_OK) VIO("C01 C20", "chan:release", "releasing a channel failed");
        break;
    }
    case O_SELECT: case O_TRYSELECT: {
        // a[0] channel mask, a[1] deadline, a[2] variant, a[3] yields before the case
        std::vector<int> ix;
        std::vector<neco_chan *> cs;
        for (size_t i = 0; i < P->chans.size() && i < 24; i++)
            if (((unsigned)op.a[0] >> i) & 1) {
                ChanM *c = chans[i];
                if (c->made && c->rt == a->rt && !(c->refmode && !a->chref)) { ix.push_back((int)i); cs.push_back(c->c); }
            }
        if (ix.empty()) break;
        if (op.a[4] == 1) { std::reverse(ix.begin(), ix.end()); std::reverse(cs.begin(), cs.end()); }
        OpRec *o = begin(a, op.k, ix[0], op.k == O_TRYSELECT ? NODL : dl(op.a[1]));
        o->chans = ix;
        int pick = -1;
        std::deque<uint32_t> buf0;
        OpRec *sq0 = nullptr;
        if (a->pend) expect(o, NECO_CANCELED);
        else {
            for (size_t i = 0; i < ix.size() && pick < 0; i++) {
                ChanM *c = chans[(size_t)ix[i]];
                if (!c->buf.empty() || !c->sq.empty() || c->drained()) pick = (int)i;
            }
            if (pick >= 0) {
                ChanM *c = chans[(size_t)ix[(size_t)pick]];
                uint32_t m = 0;
                buf0.assign(c->buf.begin(), c->buf.end());
                sq0 = c->sq.empty() ? nullptr : c->sq.front();
                bool got = m_take(c, &m);
                o->handed = true;
                o->hclosed = !got;
                o->msg = m;
                o->hidx = pick;
                expect(o, pick);
            } else if (op.k == O_TRYSELECT) expect(o, NECO_EMPTY);
            else {
                for (size_t i = 0; i < ix.size(); i++) chans[(size_t)ix[i]]->rq.push_back({o, (int)i});
                o->blocked = true;
            }
        }
        int64_t r;
        neco_chan **cp = cs.data();
        int n = (int)cs.size();
        if (op.k == O_TRYSELECT) {
            if (n == 2 && (op.a[2] & 1)) r = neco_chan_tryselect(2, cp[0], cp[1]);
            else r = neco_chan_tryselectv(n, cp);
        } else if (n == 2 && (op.a[2] & 1)) r = D == NODL ? neco_chan_select(2, cp[0], cp[1]) : neco_chan_select_dl(D, 2, cp[0], cp[1]);
        else if (n == 3 && (op.a[2] & 1)) r = D == NODL ? neco_chan_select(3, cp[0], cp[1], cp[2]) : neco_chan_select_dl(D, 3, cp[0], cp[1], cp[2]);
        else r = D == NODL ? neco_chan_selectv(n, cp) : neco_chan_selectv_dl(n, cp, D);
        int en = errno;
        check_lasterr(a, op.k, r, neco_lasterr(), en, false);
        bool handed = o->handed, hclosed = o->hclosed;
        uint32_t m = o->msg;
        if (r == NECO_NOMEM && mem_faulty(o) && (!handed || pick >= 0)) {
            // it failed before it did anything
            if (pick >= 0) {
                ChanM *c = chans[(size_t)ix[(size_t)pick]];
                c->buf.assign(buf0.begin(), buf0.end());
                if (sq0) { c->sq.push_front(sq0); sq0->handed = false; }
                if (rtops[a->rt & 7] != o->rop) VIO("C04 C20", "select:nomem-late", "%s: a select that found a message ready ran out of memory only after others ran", aname(a));
            }
            o->handed = false;
            fin(o, r);
            break;
        }
        fin_chan(o, r, false);
        if (r >= 0 && handed) {
            for (int i = 0; i < op.a[3] && a->st == Act::RUN; i++) do_yield(a);
            int ci = ix[(size_t)r];
            ChanM *c = chans[(size_t)ci];
            uint8_t b[3016];
            memset(b, 0xEE, sizeof b);
            int64_t cr = neco_chan_case(c->c, b);
            en = errno;
            check_lasterr(a, op.k, cr, neco_lasterr(), en, false);
            if (cr != (hclosed ? NECO_CLOSED : NECO_OK)) VIO(hclosed ? "C04 C03" : "C04", "select:case-result", "%s: case after select on channel %d returned %s", aname(a), ci, ename(cr));
            else if (cr == NECO_OK && !okmsg(b, c->size, ci, m)) VIO("C04 C01", "select:wrong-message", "%s: case after select on channel %d gave a message other than message %u", aname(a), ci, m);
            for (int i = c->size; i < 272; i++) if (b[i] != 0xEE) { VIO("C04 C20", "select:overrun", "a case wrote past its buffer"); break; }
        }
        break;
    }
    // ---- sync
    case O_LOCK: case O_RDLOCK: case O_TRYLOCK: case O_TRYRD: {
        MutexM *m = muts[(size_t)op.a[0]];
        if (m->rt != a->rt || a->holds.count(op.a[0])) break;
        bool tr = op.k == O_TRYLOCK || op.k == O_TRYRD;
        int mode = op.k == O_LOCK || op.k == O_TRYLOCK ? 1 : 2;
        OpRec *o = begin(a, op.k, op.a[0], tr ? NODL : dl(op.a[1]));
        if (tr) o->cansel = false;
        else if (a->pend) expect(o, NECO_CANCELED);
        else { m->req.push_back(o); o->blocked = true; }
        bool inflight = false;
        for (auto q : m->req) if (q != o && q->st == 0) inflight = true;
        for (Act *b : acts) if (b != a) for (OpRec *q = b->cur; q; q = q->prev) if (q->k == O_CWAIT && q->obj2 == op.a[0] && q->st == 0) inflight = true;
        bool conflict = false;
        for (auto &h : m->holders) if (mode == 1 || h.second == 1) conflict = true;
        int64_t r;
        if (op.k == O_LOCK) r = D == NODL ? neco_mutex_lock(&m->m) : neco_mutex_lock_dl(&m->m, D);
        else if (op.k == O_RDLOCK) r = D == NODL ? neco_mutex_rdlock(&m->m) : neco_mutex_rdlock_dl(&m->m, D);
        else if (op.k == O_TRYLOCK) r = neco_mutex_trylock(&m->m);
        else r = neco_mutex_tryrdlock(&m->m);
        int en = errno;
        check_lasterr(a, op.k, r, neco_lasterr(), en, false);
        if (r == NECO_OK) {
            grant_check(o, mode, false);
            a->holds[op.a[0]] = mode;
        } else if (tr) {
            if (r != NECO_BUSY) VIO("C06 C25", "mutex:try-result", "%s: %s returned %s", aname(a), op_names[op.k], ename(r));
            else if (!conflict && !inflight) VIO("C06", "mutex:busy-when-free", "%s: %s on mutex %d reported busy although it is free", aname(a), op_names[op.k], op.a[0]);
        } else if (r != NECO_TIMEDOUT && r != NECO_CANCELED) VIO("C06 C25", "mutex:lock-result", "%s: %s returned %s", aname(a), op_names[op.k], ename(r));
        fin(o, r);
        break;
    }
    case O_UNLOCK: if (a->holds.count(op.a[0])) do_unlock(a, op.a[0]); break;
    case O_CWAIT: {
        CondM *c = conds[(size_t)op.a[0]];
        MutexM *m = muts[(size_t)op.a[1]];
        if (c->rt != a->rt || m->rt != a->rt) break;
        auto h = a->holds.find(op.a[1]);
        if (h == a->holds.end() || h->second != 1) break;
        OpRec *o = begin(a, O_CWAIT, op.a[0], dl(op.a[2]));
        o->obj2 = op.a[1];
        a->ncw = 0;
        if (a->pend) expect(o, NECO_CANCELED);
        else {
            m->holders.erase(a);
            a->holds.erase(op.a[1]);
            c->q.push_back(o);
            o->blocked = true;
        }
        int64_t r = D == NODL ? neco_cond_wait(&c->c, &m->m) : neco_cond_wait_dl(&c->c, &m->m, D);
        int en = errno;
        check_lasterr(a, O_CWAIT, r, neco_lasterr(), en, false);
        if (neco_mutex_trylock(&m->m) == NECO_OK) {
            VIO("C07 C06", "cond:mutex-not-held", "%s: wait on condition %d returned %s but nobody holds the mutex", aname(a), op.a[0], ename(r));
            sim_end_run();
        }
        if (o->blocked) {
            grant_check(o, 1, true);
            a->holds[op.a[1]] = 1;
            if (o->handed && r != NECO_OK) VIO("C07", r == NECO_CANCELED ? "cond:wakeup-lost-at-cancel" : "cond:wakeup-lost", "%s was signalled on condition %d but its wait returned %s", aname(a), op.a[0], ename(r));
            if (r == NECO_OK && !o->handed && !o->mayhand) VIO("C07", "cond:spurious", "%s: wait on condition %d returned although nothing signalled it", aname(a), op.a[0]);
            if (r == NECO_OK && !o->handed) c->okw.push_back(o);
            if (r != NECO_OK && r != NECO_TIMEDOUT && r != NECO_CANCELED) VIO("C07 C25", "cond:result", "%s: cond wait returned %s", aname(a), ename(r));
        }
        fin(o, r);
        if (r == NECO_CANCELED && o->blocked && a->ncw > 1) { a->pend = true; ambiguous(a); } // a second cancel during the relock stays pending
        break;
    }
    case O_CSIG: case O_CBCAST: {
        CondM *c = conds[(size_t)op.a[0]];
        if (c->rt != a->rt) break;
        OpRec *o = begin(a, op.k, op.a[0]);
        o->cansel = false;
        CSig sg{S.seq, op.k == O_CBCAST, false, {}};
        std::vector<OpRec *> gone;
        for (auto w : c->q) {
            Act *t = w->act;
            bool unc = w->mayhand || t->pend || !t->maybe.empty() || (w->D != NODL && w->D < S.now);
            if (op.k == O_CBCAST) {
                if (unc) w->mayhand = true, sg.cand.push_back(w);
                else w->handed = true, gone.push_back(w);
                continue;
            }
            if (unc) { sg.cand.push_back(w); continue; }
            if (sg.cand.empty()) { w->handed = true; gone.push_back(w); break; }
            sg.cand.push_back(w);
            sg.must = true;
            break;
        }
        if (op.k == O_CSIG && gone.empty() && !sg.cand.empty()) { for (auto w : sg.cand) w->mayhand = true; c->sigs.push_back(sg); }
        if (op.k == O_CBCAST && !sg.cand.empty()) c->sigs.push_back(sg);
        for (auto w : gone) c->q.erase(std::remove(c->q.begin(), c->q.end(), w), c->q.end());
        int64_t r = op.k == O_CSIG ? neco_cond_signal(&c->c) : neco_cond_broadcast(&c->c);
        int en = errno;
        check_lasterr(a, op.k, r, neco_lasterr(), en, false);
        expect(o, NECO_OK);
        fin(o, r);
        break;
    }
    case O_WGADD: case O_WGDONE: {
        WgM *w = wgs[(size_t)op.a[0]];
        if (w->rt != a->rt) break;
        int delta = op.k == O_WGADD ? op.a[1] : -1;
        OpRec *o = begin(a, op.k, op.a[0]);
        o->cansel = false;
        if (w->count + delta < 0) expect(o, NECO_NEGWAITGRP);
        else {
            int old = w->count;
            w->count += delta;
            expect(o, NECO_OK);
            if (w->count == 0 && old > 0) { for (auto q : w->q) q->handed = true; w->q.clear(); }
        }
        int64_t r = op.k == O_WGADD ? neco_waitgroup_add(&w->w, delta) : neco_waitgroup_done(&w->w);
        int en = errno;
        check_lasterr(a, op.k, r, neco_lasterr(), en, false);
        fin(o, r);
        break;
    }
    case O_WGWAIT: {
        WgM *w = wgs[(size_t)op.a[0]];
        if (w->rt != a->rt) break;
        OpRec *o = begin(a, O_WGWAIT, op.a[0], dl(op.a[1]));
        if (a->pend) expect(o, NECO_CANCELED);
        else if (w->count == 0) { o->handed = true; }
        else { w->q.push_back(o); o->blocked = true; }
        int64_t r = D == NODL ? neco_waitgroup_wait(&w->w) : neco_waitgroup_wait_dl(&w->w, D);
        int en = errno;
        check_lasterr(a, O_WGWAIT, r, neco_lasterr(), en, false);
        if (r == NECO_OK && !o->handed) VIO("C08", "wg:early", "%s: wait on waitgroup %d returned although the count never was zero", aname(a), op.a[0]);
        if (r != NECO_OK && r != NECO_TIMEDOUT && r != NECO_CANCELED) VIO("C08 C25", "wg:result", "%s: waitgroup wait returned %s", aname(a), ename(r));
        fin(o, r);
        break;
    }
    // ---- descriptors
    case O_READ: case O_WRITE: case O_WAIT: {
        if (op.a[0] >= (int)P->fds.size()) break;
        Conn *c = conns[(size_t)op.a[0]];
        int s = op.a[1] & 1;
        if (c->rt != a->rt || c->st[s] || (c->ext && s == 1)) break;
        if (c->type == 1 && ((op.k == O_READ) != (s == 0)) && op.k != O_WAIT) break;
        dl(op.a[3]);
        if (op.k == O_WAIT || (op.k == O_READ && c->rbusy[s]) || (op.k == O_WRITE && c->wbusy[s])) {
            int mode = op.k == O_WAIT ? (op.a[2] & 1 ? NECO_WAIT_WRITE : NECO_WAIT_READ) : op.k == O_READ ? NECO_WAIT_READ : NECO_WAIT_WRITE;
            if (c->type == 1) mode = s == 0 ? NECO_WAIT_READ : NECO_WAIT_WRITE;
            if (!c->open[s]) break;
            do_wait(a, c, s, mode, D);
        } else if (op.k == O_READ) do_read(a, c, s, (size_t)op.a[2], D);
        else do_write(a, c, s, (size_t)op.a[2], D);
        break;
    }
    case O_CLOSEFD: {
        if (op.a[0] >= (int)P->fds.size()) break;
        Conn *c = conns[(size_t)op.a[0]];
        int s = op.a[1] & 1;
        if (c->rt != a->rt || !c->open[s] || c->st[s] || c->rbusy[s] || c->wbusy[s] || c->nwait[s] || (c->ext && s == 1)) break;
        c->open[s] = false;
        fdmap.erase(c->fd[s]);
        tracef("%s closes connection %d side %d", aname(a), c->id, s);
        sim_close(c->fd[s]);
        break;
    }
    case O_SREAD: case O_SREADFULL: case O_SBYTE: case O_SUNREAD: case O_SWRITE: case O_SFLUSH: case O_SSIZES: case O_SCLOSE: {
        if (op.a[0] >= (int)P->fds.size()) break;
        Conn *c = conns[(size_t)op.a[0]];
        if (c->rt != a->rt || (c->ext && (op.a[1] & 1))) break;
        do_stream(a, op.k, c, op.a[1] & 1, (size_t)op.a[2], dl(op.a[3]));
        break;
    }
    case O_SERVE: if (op.a[0] < (int)P->addrs.size()) do_serve(a, op.a[0], dl(op.a[1])); break;
    case O_ACCEPT: if (op.a[0] < (int)P->addrs.size()) do_accept(a, op.a[0], dl(op.a[1]), op.a[2]); break;
    case O_DIAL: if (op.a[0] < (int)P->addrs.size()) do_dial(a, op.a[0], dl(op.a[1]), op.a[2]); break;
    case O_LCLOSE: {
        if (op.a[0] >= (int)P->addrs.size()) break;
        LSock &l = lsocks[(size_t)op.a[0]];
        if (l.fd < 0 || l.busy || l.rt != a->rt) break;
        sim_close(l.fd);
        l.fd = -1;
        break;
    }
    case O_GAI: if (op.a[0] < (int)P->addrs.size()) do_gai(a, op.a[0], dl(op.a[1])); break;
    // ---- signals
    case O_SIGWATCH: case O_SIGUNWATCH: {
        if (a->rt != 0) break;
        OpRec *o = begin(a, op.k, op.a[0]);
        o->cansel = false;
        uint32_t bit = 1u << op.a[0];
        int64_t r;
        sig_trans |= bit;
        if (op.k == O_SIGWATCH) { r = neco_signal_watch(op.a[0]); if (!(a->sigwatch & bit)) { a->sigwatch |= bit; sig_add(op.a[0]); } }
        else { r = neco_signal_unwatch(op.a[0]); if (a->sigwatch & bit) { a->sigwatch &= ~bit; sig_drop(op.a[0]); } }
        int en = errno;
        sig_trans &= ~bit;
        check_lasterr(a, op.k, r, neco_lasterr(), en, false);
        expect(o, NECO_OK);
        fin(o, r);
        break;
    }
    case O_SIGWAIT: {
        if (a->rt != 0) break;
        OpRec *o = begin(a, O_SIGWAIT, -1, dl(op.a[0]));
        if (!a->sigwatch) { expect(o, NECO_NOSIGWATCH); o->cansel = false; }
        else if (a->pend) expect(o, NECO_CANCELED);
        else o->blocked = true;
        int64_t r = D == NODL ? neco_signal_wait() : neco_signal_wait_dl(D);
        int en = errno;
        check_lasterr(a, O_SIGWAIT, r, neco_lasterr(), en, false);
        if (r > 0) {
            if (r > 31 || !(a->sigwatch & (1u << r))) VIO("C18", "signal:unwatched", "%s received signal %lld, which it does not watch", aname(a), (long long)r);
            else if (sig_del[r] >= sig_arr[r]) VIO("C18", "signal:duplicate", "%s received signal %lld more often than it arrived", aname(a), (long long)r);
            else sig_del[r]++;
            if (o->pend_at_inv && !o->exp_set) VIO("C10 C18", "cancel:missed", "signal wait ignored a cancel");
        } else if (r == 0) VIO("C18", "signal:zero", "%s: signal wait returned 0", aname(a));
        fin(o, r);
        break;
    }
    case O_WORK: do_work(a, op.a[0], op.a[1]); break;
    case O_STACK: {
        char here;
        a->shi = (uintptr_t)&here;
        a->slo = 0;
        long frame = op.a[1] < 64 ? 64 : op.a[1];
        long maxb = variant_info.stacksize - 24 * 1024;
        long depth = op.a[0];
        if (frame > maxb - 512) frame = maxb - 512;
        if ((depth + 1) * (frame + 256) > maxb) depth = maxb / (frame + 256) - 1;
        if (depth < 0) depth = 0;
        if (!a->isroot) stack_rec(a, (int)depth, (int)frame, op.a[2], (uint32_t)op.a[3] + 1);
        a->slo = a->shi = 0;
        break;
    }
    case O_REGS: do_regs(a, op.a[0]); break;
    case O_PIPE: if (a->st == Act::RUN && !a->hrun) do_pipe(a, op.a[0] & 1); break;
    case O_FOREIGN: {
        // every object of another runtime must be refused
        int64_t r = 0;
        const char *what = "?";
        bool did = false;
        uint8_t b[3016];
        int64_t want = NECO_PERM;
        int64_t mf0 = mem_failed_total;
        int q = op.a[0];
        auto in = [&](std::initializer_list<int> l) { for (int x : l) if (x == q) return true; return false; };
        preempt_hold = q <= 5 || (q >= 12 && q <= 16) || (q >= 23 && q <= 30); // the owner may not free it meanwhile
        for (size_t i = 0; i < P->chans.size() && !did; i++)
            if (chans[i]->made && chans[i]->rt != a->rt && !chans[i]->refmode && in({0, 1, 2, 3, 4, 5, 13, 14, 15, 16})) {
                did = true;
                neco_chan *c = chans[i]->c;
                switch (q) {
                case 0: r = neco_chan_send(c, b); what = "send"; break;
                case 1: r = neco_chan_recv(c, b); what = "recv"; break;
                case 2: r = neco_chan_close(c); what = "close"; break;
                case 3: r = neco_chan_selectv(1, &c); what = "select"; break;
                case 4: r = neco_chan_release(c); what = "release"; break;
                case 5: r = neco_chan_broadcast(c, b); what = "broadcast"; break;
                case 13: r = neco_chan_retain(c); what = "retain"; break;
                case 14: r = neco_chan_tryrecv(c, b); what = "tryrecv"; break;
                case 15: r = neco_chan_tryselectv(1, &c); what = "tryselect"; break;
                case 16: r = neco_chan_case(c, b); what = "case"; break;
                }
            }
        for (size_t i = 0; i < muts.size() && !did; i++)
            if (muts[i]->rt != a->rt && in({6, 7, 8, 17, 18, 22}) && muts[i]->m._0 != 0) {
                did = true;
                neco_mutex *m = &muts[i]->m;
                switch (q) {
                case 6: r = neco_mutex_lock(m); what = "mutex lock"; break;
                case 7: r = neco_mutex_trylock(m); what = "mutex trylock"; break;
                case 8: r = neco_mutex_unlock(m); what = "mutex unlock"; break;
                case 17: r = neco_mutex_rdlock(m); what = "mutex rdlock"; break;
                case 18: r = neco_mutex_tryrdlock(m); what = "mutex tryrdlock"; break;
                case 22: { neco_cond own = NECO_COND_INITIALIZER; r = neco_cond_wait(&own, m); what = "cond wait with the mutex"; break; }
                }
            }
        for (size_t i = 0; i < wgs.size() && !did; i++)
            if (wgs[i]->rt != a->rt && in({9, 10, 19}) && wgs[i]->w._0 != 0) {
                did = true;
                switch (q) {
                case 9: r = neco_waitgroup_add(&wgs[i]->w, 1); what = "waitgroup add"; break;
                case 10: r = neco_waitgroup_wait(&wgs[i]->w); what = "waitgroup wait"; break;
                case 19: r = neco_waitgroup_done(&wgs[i]->w); what = "waitgroup done"; break;
                }
            }
        for (size_t i = 0; i < conds.size() && !did; i++)
            if (conds[i]->rt != a->rt && in({11, 20, 21}) && conds[i]->c._0 != 0) {
                did = true;
                switch (q) {
                case 11: r = neco_cond_signal(&conds[i]->c); what = "cond signal"; break;
                case 20: r = neco_cond_broadcast(&conds[i]->c); what = "cond broadcast"; break;
                case 21: { neco_mutex own = NECO_MUTEX_INITIALIZER; if (neco_mutex_trylock(&own) != NECO_OK) { did = false; break; } r = neco_cond_wait(&conds[i]->c, &own); what = "cond wait"; break; }
                }
            }
        int fs = -1, fi = 0; // a stream of another runtime, if possible one that holds data
        for (size_t i = 0; i < P->fds.size(); i++)
            for (int s = 0; s < 2; s++)
                if (conns[i]->rt != a->rt && conns[i]->st[s] && (fs < 0 || conns[i]->krd[s] > conns[i]->rlog[s])) fs = s, fi = (int)i;
        for (size_t i = (size_t)fi; fs >= 0 && i == (size_t)fi && !did; i++)
            if (in({12, 23, 24, 25, 26, 27, 28, 29, 30})) {
                did = true;
                neco_stream *st = conns[i]->st[fs];
                switch (q) {
                case 12: r = neco_stream_write(st, b, 1); what = "stream write"; break;
                case 23: r = neco_stream_read(st, b, 1); what = "stream read"; break;
                case 24: r = neco_stream_read_byte(st); what = "stream read byte"; break;
                case 25: r = neco_stream_unread_byte(st); what = "stream unread byte"; break;
                case 26: r = neco_stream_flush(st); what = "stream flush"; break;
                case 27: r = neco_stream_buffered_read_size(st); what = "stream read size"; break;
                case 28: r = neco_stream_buffered_write_size(st); what = "stream write size"; break;
                case 29: r = neco_stream_readfull(st, b, 2); what = "stream readfull"; break;
                case 30: r = neco_stream_close(st); what = "stream close"; break;
                }
            }
        for (size_t i = 0; i < acts.size() && !did; i++)
            if (acts[i]->rt != a->rt && in({31, 32, 33}) && acts[i]->st == Act::RUN && acts[i]->id > 0) {
                did = true;
                switch (q) {
                case 31: r = neco_cancel(acts[i]->id); what = "cancel"; want = NECO_NOTFOUND; break;
                case 32: r = neco_resume(acts[i]->id); what = "resume"; want = NECO_NOTFOUND; break;
                case 33: r = neco_join(acts[i]->id); what = "join"; want = NECO_OK; break;
                }
            }
        preempt_hold = 0;
        if (!did) break;
        int en = errno;
        probe(1);
        check_lasterr(a, O_FOREIGN, r, neco_lasterr(), en, false);
        if (r != want && !(r == NECO_NOMEM && mem_failed_total != mf0)) { VIO("C22", "foreign:accepted", "%s on an object or coroutine of another runtime returned %s instead of %s", what, ename(r), ename(want)); sim_end_run(); }
        break;
    }
    case O_BADARG: {
        struct { int64_t r, want; const char *what; } e{0, 0, ""};
        neco_stats *ns = nullptr;
        switch (op.a[0]) {
        case 0: e = {neco_chan_send(nullptr, &e), NECO_INVAL, "send(null)"}; break;
        case 1: e = {neco_chan_recv(nullptr, &e), NECO_INVAL, "recv(null)"}; break;
        case 2: e = {neco_mutex_lock(nullptr), NECO_INVAL, "lock(null)"}; break;
        case 3: e = {neco_mutex_trylock(nullptr), NECO_INVAL, "trylock(null)"}; break;
        case 4: e = {neco_start(nullptr, 0), NECO_INVAL, "start(null)"}; break;
        case 5: e = {neco_cancel(1ll << 60), NECO_NOTFOUND, "cancel(unknown)"}; break;
        case 6: e = {neco_setcanceltype(99, nullptr), NECO_INVAL, "setcanceltype(99)"}; break;
        case 7: e = {neco_setcancelstate(99, nullptr), NECO_INVAL, "setcancelstate(99)"}; break;
        case 8: e = {neco_wait(100, 77), NECO_INVAL, "wait(bad mode)"}; break;
        case 9: e = {neco_signal_watch(0), NECO_INVAL, "signal_watch(0)"}; break;
        case 10: e = {neco_join(1ll << 60), NECO_OK, "join(unknown)"}; break;
        case 11: e = {neco_stream_flush(nullptr), NECO_INVAL, "stream_flush(null)"}; break;
        case 12: if (a->gen < 0) e = {neco_gen_yield(&e), NECO_NOTGENERATOR, "gen_yield outside a generator"}; break;
        case 13: e = {neco_work(0, nullptr, nullptr), NECO_INVAL, "work(null)"}; break;
        case 14: e = {neco_getstats(ns), NECO_INVAL, "getstats(null)"}; break;
        case 15: e = {neco_resume(1ll << 60), NECO_NOTFOUND, "resume(unknown)"}; break;
        case 16: e = {neco_waitgroup_done(nullptr), NECO_INVAL, "waitgroup_done(null)"}; break;
        case 17: e = {neco_cond_signal(nullptr), NECO_INVAL, "cond_signal(null)"}; break;
        case 18: e = {neco_chan_close(nullptr), NECO_INVAL, "close(null)"}; break;
        case 19: e = {neco_rand(&e, 4, 9), NECO_INVAL, "rand(bad attribute)"}; break;
        case 20: e = {neco_mutex_rdlock(nullptr), NECO_INVAL, "rdlock(null)"}; break;
        case 21: e = {neco_mutex_tryrdlock(nullptr), NECO_INVAL, "tryrdlock(null)"}; break;
        case 22: e = {neco_stream_read(nullptr, &e, 1), NECO_INVAL, "stream_read(null)"}; break;
        case 23: e = {neco_stream_read_byte(nullptr), NECO_INVAL, "stream_read_byte(null)"}; break;
        case 24: e = {neco_cond_wait(nullptr, nullptr), NECO_INVAL, "cond_wait(null)"}; break;
        case 25: e = {neco_dial("bogus", "x"), NECO_INVAL, "dial(bogus network)"}; break;
        case 26: e = {neco_serve("bogus", "x"), NECO_INVAL, "serve(bogus network)"}; break;
        case 27: e = {neco_chan_make(nullptr, 1, 1), NECO_INVAL, "chan_make(null)"}; break;
        case 28: { neco_chan *x = nullptr; e = {neco_chan_make(&x, (size_t)INT_MAX + 1, 0), NECO_INVAL, "chan_make(too large)"}; break; }
        case 29: { neco_chan *x = nullptr; e = {neco_chan_make(&x, 1, (size_t)INT_MAX + 1), NECO_INVAL, "chan_make(too many)"}; break; }
        case 30: e = {neco_chan_retain(nullptr), NECO_INVAL, "chan_retain(null)"}; break;
        case 31: e = {neco_chan_release(nullptr), NECO_INVAL, "chan_release(null)"}; break;
        case 32: e = {neco_chan_broadcast(nullptr, &e), NECO_INVAL, "broadcast(null)"}; break;
        case 33: e = {neco_chan_tryrecv(nullptr, &e), NECO_INVAL, "tryrecv(null)"}; break;
        case 34: if (!a->pend) e = {neco_chan_selectv(-1, nullptr), NECO_INVAL, "select(-1)"}; break;
        case 35: e = {neco_chan_case(nullptr, &e), NECO_INVAL, "case(null)"}; break;
        case 36: e = {neco_gen_start(nullptr, 4, nop_main, 0), NECO_INVAL, "gen_start(null)"}; break;
        case 37: { neco_gen *x = nullptr; e = {neco_gen_start(&x, (size_t)INT_MAX + 1, nop_main, 0), NECO_INVAL, "gen_start(too large)"}; break; }
        case 38: e = {neco_gen_next(nullptr, &e), NECO_INVAL, "gen_next(null)"}; break;
        case 39: e = {neco_gen_close(nullptr), NECO_INVAL, "gen_close(null)"}; break;
        case 40: e = {neco_gen_release(nullptr), NECO_INVAL, "gen_release(null)"}; break;
        case 41: e = {neco_gen_retain(nullptr), NECO_INVAL, "gen_retain(null)"}; break;
        case 42: e = {neco_mutex_init(nullptr), NECO_INVAL, "mutex_init(null)"}; break;
        case 43: e = {neco_waitgroup_init(nullptr), NECO_INVAL, "waitgroup_init(null)"}; break;
        case 44: e = {neco_cond_init(nullptr), NECO_INVAL, "cond_init(null)"}; break;
        case 45: e = {neco_mutex_unlock(nullptr), NECO_INVAL, "unlock(null)"}; break;
        case 46: e = {neco_waitgroup_add(nullptr, 1), NECO_INVAL, "waitgroup_add(null)"}; break;
        case 47: e = {neco_waitgroup_wait(nullptr), NECO_INVAL, "waitgroup_wait(null)"}; break;
        case 48: e = {neco_cond_broadcast(nullptr), NECO_INVAL, "cond_broadcast(null)"}; break;
        case 49: { neco_waitgroup w; memset(&w, 0, sizeof w); e = {neco_waitgroup_add(&w, -1), NECO_NEGWAITGRP, "waitgroup_add(below zero)"}; break; }
        case 50: if (a->rt == 0) e = {neco_signal_watch(32), NECO_INVAL, "signal_watch(32)"}; break;
        case 51: if (a->rt == 0) e = {neco_signal_unwatch(0), NECO_INVAL, "signal_unwatch(0)"}; break;
        case 52: if (a->rt == 0) e = {neco_signal_unwatch(32), NECO_INVAL, "signal_unwatch(32)"}; break;
        case 53: e = {neco_stream_make(nullptr, 3), NECO_INVAL, "stream_make(null)"}; break;
        case 54: { neco_stream *x = nullptr; e = {neco_stream_make(&x, -1), NECO_INVAL, "stream_make(-1)"}; break; }
        case 55: { neco_stream *x = nullptr; e = {neco_stream_make_buffered(&x, -1), NECO_INVAL, "stream_make_buffered(-1)"}; break; }
        case 56: e = {neco_stream_close(nullptr), NECO_INVAL, "stream_close(null)"}; break;
        case 57: e = {neco_stream_write(nullptr, &e, 1), NECO_INVAL, "stream_write(null)"}; break;
        case 58: e = {neco_stream_unread_byte(nullptr), NECO_INVAL, "stream_unread_byte(null)"}; break;
        case 59: e = {neco_stream_readfull(nullptr, &e, 1), NECO_INVAL, "stream_readfull(null)"}; break;
        case 60: e = {neco_stream_buffered_read_size(nullptr), NECO_INVAL, "stream_buffered_read_size(null)"}; break;
        case 61: e = {neco_stream_buffered_write_size(nullptr), NECO_INVAL, "stream_buffered_write_size(null)"}; break;
        case 62: e = {neco_dial(nullptr, "127.0.0.1:1"), NECO_INVAL, "dial(null network)"}; break;
        case 63: e = {neco_dial("tcp", nullptr), NECO_INVAL, "dial(null address)"}; break;
        case 64: e = {neco_serve(nullptr, "127.0.0.1:1"), NECO_INVAL, "serve(null network)"}; break;
        case 65: e = {neco_serve("tcp", nullptr), NECO_INVAL, "serve(null address)"}; break;
        case 66: e = {neco_startv(nop_main, -1, nullptr), NECO_INVAL, "start(-1 arguments)"}; break;
        case 67: e = {neco_dial("tcp", "no-port"), NECO_INVAL, "dial(no port)"}; break;
        case 68: e = {neco_dial("tcp", ""), NECO_INVAL, "dial(empty)"}; break;
        case 69: { std::string l(120, 'x'); e = {neco_dial("unix", l.c_str()), NECO_INVAL, "dial(long path)"}; break; }
        case 70: { std::string l(120, 'x'); e = {neco_serve("unix", l.c_str()), NECO_INVAL, "serve(long path)"}; break; }
        case 71: { // descriptor flags
            int p[2];
            int64_t f0 = fault_sum();
            if (sim_pipe(p) == -1) break;
            bool o1 = true, o2 = false, o3 = true, n1, n2;
            int r1 = neco_setnonblock(p[0], true, &o1); n1 = k_nonblock(p[0]);
            int r2 = neco_setnonblock(p[0], false, &o2); n2 = k_nonblock(p[0]);
            int r3 = neco_setnonblock(p[1], false, &o3);
            if (fault_sum() == f0 && (r1 || r2 || r3 || o1 || !o2 || o3 || !n1 || n2)) VIO("C25 C15", "nonblock:result", "neco_setnonblock reports or sets the wrong mode");
            sim_close(p[0]);
            sim_close(p[1]);
            return;
        }
        case 72: { // initialised objects are usable and independent of what was there before
            neco_mutex m; neco_waitgroup w; neco_cond c;
            memset(&m, 0xA5, sizeof m); memset(&w, 0xA5, sizeof w); memset(&c, 0xA5, sizeof c);
            int r1 = neco_mutex_init(&m), r2 = neco_waitgroup_init(&w), r3 = neco_cond_init(&c);
            int r4 = neco_mutex_trylock(&m), r5 = neco_mutex_trylock(&m), r6 = neco_mutex_unlock(&m);
            int r7 = neco_waitgroup_add(&w, 2), r8 = neco_waitgroup_done(&w), r9 = neco_waitgroup_add(&w, -1), ra = neco_waitgroup_done(&w);
            int rb = neco_cond_signal(&c), rc = neco_cond_broadcast(&c);
            int rd = neco_mutex_tryrdlock(&m), re = neco_mutex_tryrdlock(&m), rf = neco_mutex_trylock(&m), rg = neco_mutex_unlock(&m), rh = neco_mutex_unlock(&m), ri = neco_mutex_trylock(&m);
            if (r1 || r2 || r3 || r4 || r5 != NECO_BUSY || r6) VIO("C06 C25", "init:mutex", "an initialised mutex does not work: %d %d %d", r4, r5, r6);
            if (r7 || r8 || r9 || ra != NECO_NEGWAITGRP) VIO("C08 C25", "init:wg", "an initialised waitgroup does not count");
            if (rb || rc) VIO("C07 C25", "init:cond", "an initialised condition variable does not work");
            if (rd || re || rf != NECO_BUSY || rg || rh || ri) VIO("C06 C25", "init:mutex", "an initialised mutex does not take readers");
            return;
        }
        case 73: { // unknown descriptors
            char ch = 1;
            for (int w = 0; w < 2; w++) {
                errno = 0;
                int64_t r = w ? neco_write(9999, &ch, 1) : neco_read(9999, &ch, 1);
                if (r == -1 && errno == EBADF && neco_lasterr() == NECO_ERROR) continue;
                if (r == -1 && errno == ECANCELED && (a->pend || !a->maybe.empty())) { consume(a); continue; }
                VIO("C25 C15", "badfd:io", "%s of a closed descriptor returned %lld, errno %d", w ? "write" : "read", (long long)r, errno);
            }
            return;
        }
        case 74: { // every code has a text of its own
            std::set<std::string> seen;
            for (int c = 0; c >= -30; c--) {
                const char *t = neco_strerror(c);
                if (!t || !*t) { VIO("C25", "strerror:none", "error code %d has no text", c); break; }
            }
            static const int codes[] = {NECO_OK, NECO_PERM, NECO_NOMEM, NECO_EOF, NECO_INVAL, NECO_PARTIALWRITE, NECO_NOTFOUND, NECO_NEGWAITGRP, NECO_TIMEDOUT, NECO_CANCELED, NECO_CLOSED, NECO_EMPTY, NECO_BUSY, NECO_NOTSUSPENDED, NECO_UNREADFAIL, NECO_NOSIGWATCH, NECO_NOTGENERATOR};
            for (int c : codes) if (!seen.insert(neco_strerror(c)).second) { VIO("C25", "strerror:same", "two error codes share the text %s", neco_strerror(c)); break; }
            static const int sys[][2] = {{NECO_INVAL, EINVAL}, {NECO_PERM, EPERM}, {NECO_NOMEM, ENOMEM}, {NECO_TIMEDOUT, ETIMEDOUT}, {NECO_CANCELED, ECANCELED}};
            for (auto &c : sys) if (strcmp(neco_strerror(c[0]), strerror(c[1]))) { VIO("C25", "strerror:wrong", "the text of %s reads '%s'", ename(c[0]), neco_strerror(c[0])); break; }
            for (int e = 1; e < 40; e++) { errno = e; if (strcmp(neco_strerror(NECO_ERROR), strerror(e))) { VIO("C25", "strerror:errno", "the text of system error %d reads '%s'", e, neco_strerror(NECO_ERROR)); break; } }
            return;
        }
        case 75: { // the clock of the library never runs backwards and is the simulated clock
            int64_t t0 = S.now, n1 = neco_now(), n2 = neco_now(), t1 = S.now;
            if (n1 < t0 || n2 < n1 || n2 > t1) VIO("C09", "now:wrong", "neco_now reads %lld, %lld between %lld and %lld", (long long)n1, (long long)n2, (long long)t0, (long long)t1);
            return;
        }
        case 76: { // a seeded sequence repeats
            if (a->pend || !a->maybe.empty()) return;
            RandE *e[2];
            for (int k = 0; k < 2; k++) {
                rand_seed(a, 42 + op.a[1], 1);
                e[k] = rand_begin(a, 40);
                rand_end(e[k], neco_rand(e[k]->b.data(), 40, NECO_PRNG));
            }
            if (e[0]->done && e[1]->done && memcmp(e[0]->b.data(), e[1]->b.data(), 40)) VIO("C26", "rand:seed", "the same seed gave two different sequences");
            return;
        }
        default: return;
        }
        int en = errno, le = neco_lasterr();
        if (!*e.what) break;
        if (e.r != e.want) VIO("C25", "badarg:result", "%s returned %s instead of %s", e.what, ename(e.r), ename(e.want));
        if (le != (e.r < 0 ? e.r : 0)) VIO("C25", "lasterr:mismatch", "%s returned %s but the last error reads %s", e.what, ename(e.r), ename(le));
        (void)en;
        break;
    }
    case O_RAND: {
        if (op.a[2]) { rand_seed(a, op.a[3] == 0 ? 0 : op.a[3] == 1 ? -1 : (int64_t)(0x9e3779b97f4a7c15ull * (unsigned)op.a[3]), op.a[4]); break; }
        size_t n = (size_t)(op.a[0] % 1200);
        RandE *e = rand_begin(a, n);
        OpRec *o = begin(a, O_RAND, -1, dl(op.a[1]));
        if (a->pend) expect(o, NECO_CANCELED);
        int64_t r = (D == NODL ? neco_rand(e->b.data(), n, NECO_PRNG) : neco_rand_dl(e->b.data(), n, NECO_PRNG, D));
        int en = errno;
        check_lasterr(a, O_RAND, r, neco_lasterr(), en, false);
        if (r != NECO_OK && r != NECO_TIMEDOUT && r != NECO_CANCELED) VIO("C25 C26", "rand:result", "rand returned %s", ename(r));
        rand_end(e, r);
        fin(o, r);
        break;
    }
    }
}

static int run_ops(Act *a, int pos, bool nested) {
    const std::vector<Op> &ops = a->p->ops;
    while (pos < (int)ops.size()) {
        if (stopping && !nested) return (int)ops.size();
        const Op &op = ops[(size_t)pos];
        if (op.k == O_PUSH) {
            HRec *h = new HRec{};
            h->a = a;
            h->kind = op.a[0];
            bool ex = false;
            int runs = 0;
            h->n = (int)a->hs.size();
            a->hs.push_back(h);
            neco_cleanup_push(handler, h);
            pos = run_ops(a, pos + 1, true);
            if (a->hs.empty() || a->hs.back() != h) VIO("C11", "cleanup:stack", "%s: the cleanup stack lost a handler", aname(a));
            ex = pos < (int)ops.size() && ops[(size_t)pos].k == O_POP && ops[(size_t)pos].a[0];
            if (ex) h->n = -2; else a->hs.pop_back();
            runs = h->runs;
            neco_cleanup_pop(ex);
            if (h->runs != runs + (ex ? 1 : 0)) VIO("C11", "cleanup:pop", "%s: popping a handler ran it %d times", aname(a), h->runs - runs);
            pos++;
            continue;
        }
        if (op.k == O_POP) {
            if (nested) return pos;
            pos++;
            continue;
        }
        if (stopping) { pos++; continue; }
        preempt_hold = 0;
        exec(a, op);
        pos++;
    }
    return pos;
}

static void act_main(int argc, void *argv[]) {
    Act *a = (Act *)argv[0];
    if (a->st != Act::STARTED || a->entered) {
        VIO("C12", "start:twice", "the function of %s runs although it was not started now", aname(a));
        sim_end_run();
    }
    a->entered++;
    a->argc = argc; a->argv = argv;
    a->st = Act::RUN;
    a->cur = nullptr;
    a->pend = a->spend = false;
    a->maybe.clear();
    a->smaybe.clear();
    a->lastconsume = 0;
    a->cstate = P->env_cstate ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE;
    ++S.seq;
    a->id = neco_getid();
    if (a->id <= 0 || !idset.insert(a->id).second) VIO("C12 C22", "start:id-reused", "%s runs under id %lld, which is not new", aname(a), (long long)a->id);
    if (neco_starterid() != a->starter) VIO("C12", "start:starterid", "%s: the starter id reads %lld, actually %lld", aname(a), (long long)neco_starterid(), (long long)a->starter);
    if (argc != nvargs(a)) VIO("C12", "start:argc", "%s received %d arguments instead of %d", aname(a), argc, nvargs(a));
    else for (int i = 0; i < a->p->nargs; i++) if ((int64_t)argv[1 + i] != a->expargs[i]) { VIO("C12", "start:args", "%s received a wrong argument %d", aname(a), i + 1); break; }
    if (neco_lastid() != 0) VIO("C12", "start:lastid-stale", "%s has started nothing but its last-started id reads %lld", aname(a), (long long)neco_lastid());
    tracef("%.6f #%llu %s runs, id %lld", (double)S.now / 1e9 - 1000, (unsigned long long)S.seq, aname(a), (long long)a->id);
    neco_cleanup_push(base_handler, a);
    for (size_t i = 0; i < P->chans.size(); i++) { // nothing was selected yet
        ChanM *m = chans[i];
        if (!m->made || m->refs <= 0 || m->rt != a->rt) continue;
        std::vector<unsigned char> b((size_t)m->size + 1, 0x5e), b0 = b;
        int r = neco_chan_case(m->c, b.data());
        if (r != NECO_CLOSED || b != b0) VIO("C04 C01", "case:without-select", "%s has selected nothing, yet its case operation on channel %zu returned %s%s", aname(a), i, ename(r), b != b0 ? " and a message" : "");
    }
    for (size_t i = 0; i < P->chans.size(); i++)
        if (chans[i]->refmode && chans[i]->rt == a->rt && chans[i]->made && chans[i]->refs > 0) { a->chref = true; }
    if (a->chref) {
        for (size_t i = 0; i < P->chans.size(); i++)
            if (chans[i]->refmode && chans[i]->rt == a->rt && chans[i]->made) {
                if (chans[i]->refs <= 0) { a->chref = false; break; }
            }
        if (a->chref)
            for (size_t i = 0; i < P->chans.size(); i++)
                if (chans[i]->refmode && chans[i]->rt == a->rt && chans[i]->made) { chans[i]->refs++; neco_chan_retain(chans[i]->c); }
    }
    int want = a->p->ctype ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
    if (want != a->ctype) { exec(a, Op{O_CTYPE, {a->p->ctype, 0, 0, 0, 0}}); }
    if (P->env_cstate && a->idx % 4 != 3) { exec(a, Op{O_CSTATE, {1, 0, 0, 0, 0}}); }
    if (argc == nvargs(a)) run_ops(a, 0, false);
    int nb = 0;
    for (int i = 0; i < a->p->nargs && argc == nvargs(a); i++) if ((int64_t)argv[1 + i] != a->expargs[i]) nb++;
    if (nb) VIO("C12 C23", "start:args-changed", "%s: arguments changed while it ran", aname(a));
    if (!a->hs.empty()) VIO("C11", "cleanup:leftover", "%s ends with %zu handlers on the stack", aname(a), a->hs.size());
    end_ops_of(a);
    neco_cleanup_pop(0);
    mark_done(a);
}

// ------------------------------------------------------------ root
static int cur_nlive(int rt) {
    int n = 0;
    for (Act *a : acts) if (a->rt == rt && !a->isroot && a->st != Act::IDLE && a->st != Act::DONE) n++;
    return n;
}
static void ext_drain(Conn *c) {
    uint8_t b[4096];
    if (c->ext) while (ext_recv(c->ext, b, sizeof b) > 0) {}
}
static void apply_xev(const XEv &x) {
    if (x.kind == XE_SIGNAL) { R->faults[F_SIGNAL]++; if (sig_on) sim_raise(x.a); return; }
    if (x.kind == XE_WALL) { R->faults[F_WALL_JUMP]++; S.wall_off += (int64_t)x.a * 1000000; return; }
    if (x.kind == XE_CONNECT) {
        if (x.a < (int)lsocks.size() && lsocks[(size_t)x.a].fd >= 0) net_connect_external(lsocks[(size_t)x.a].key.c_str(), 0);
        return;
    }
    if (x.a >= (int)P->fds.size()) return;
    Conn *c = conns[(size_t)x.a];
    if (!c->ext) return;
    switch (x.kind) {
    case XE_SEND: {
        if (c->shut || c->peer_gone) return;
        size_t n = std::min((size_t)x.b, ext_space(c->ext));
        if (!n) return;
        uint8_t *b = (uint8_t *)malloc(n);
        fillpat(b, n, c->id, 1, c->extsent);
        ext_send(c->ext, b, n);
        c->extsent += n;
        free(b);
        break;
    }
    case XE_DRAIN: ext_drain(c); break;
    case XE_CLOSE: R->faults[F_PEER_CLOSE]++; c->peer_gone = true; ext_close(c->ext); break;
    case XE_SHUT: c->shut = true; ext_shutdown(c->ext); break;
    case XE_RESET: c->reset = c->peer_gone = true; ext_reset(c->ext); break;
    }
}

static void setup_objects(Act *root) {
    int rt = root->rt;
    for (size_t i = 0; i < P->chans.size(); i++) {
        ChanM *c = chans[i];
        if (c->rt != rt) continue;
        int64_t r = neco_chan_make(&c->c, (size_t)c->size, (size_t)c->cap);
        if (r != NECO_OK) { if (!mem_failed_total) VIO("C01 C20", "chan:make", "making a channel returned %s", ename(r)); continue; }
        c->made = true;
        c->refs = 1;
    }
    for (size_t i = 0; i < P->fds.size(); i++) {
        Conn *c = conns[i];
        if (c->rt != rt || !P->fds[i].stream) continue;
        c->stmode = P->fds[i].stream == 1 ? 1 : 2;
        for (int s = 0; s < (c->ext ? 1 : 2); s++) {
            int64_t r = c->stmode == 1 ? neco_stream_make(&c->st[s], c->fd[s]) : P->fds[i].stream > 2 ? neco_stream_make_buffered_size(&c->st[s], c->fd[s], (size_t)P->fds[i].stream) : neco_stream_make_buffered(&c->st[s], c->fd[s]);
            if (r != NECO_OK) { c->st[s] = nullptr; if (!mem_failed_total) VIO("C16 C20", "stream:make", "making a stream returned %s", ename(r)); }
        }
    }
}
static void cond_matching(CondM *c, int ci) {
    // waits that returned OK need distinct signals, and signals that had a certain waiter need a woken wait
    auto ok = [&](OpRec *w) { return w->st == 1 && w->r == NECO_OK && !w->handed; };
    std::vector<OpRec *> L;
    for (auto w : c->okw) {
        bool b = false;
        for (auto &s : c->sigs) if (s.bcast) for (auto x : s.cand) if (x == w) b = true;
        if (!b) L.push_back(w);
    }
    std::vector<CSig *> Rr;
    for (auto &s : c->sigs) if (!s.bcast) Rr.push_back(&s);
    auto maxmatch = [&](bool fromleft, int *need) {
        // Kuhn from the side that must be covered
        size_t nl = fromleft ? L.size() : 0;
        std::vector<std::vector<int>> adj;
        size_t m = 0;
        std::vector<OpRec *> all;
        for (auto w : c->okw) all.push_back(w);
        if (fromleft) {
            adj.resize(nl);
            m = Rr.size();
            for (size_t i = 0; i < nl; i++) for (size_t j = 0; j < m; j++) for (auto x : Rr[j]->cand) if (x == L[i]) adj[i].push_back((int)j);
            *need = (int)nl;
        } else {
            m = all.size();
            for (auto s : Rr) {
                if (!s->must) continue;
                std::vector<int> e;
                for (size_t i = 0; i < m; i++) for (auto x : s->cand) if (x == all[i] && ok(all[i])) e.push_back((int)i);
                adj.push_back(e);
            }
            *need = (int)adj.size();
        }
        std::vector<int> mt(m, -1);
        int got = 0;
        for (size_t i = 0; i < adj.size(); i++) {
            std::vector<char> seen(m, 0);
            std::function<bool(int)> tr = [&](int u) {
                for (int v : adj[(size_t)u]) {
                    if (seen[(size_t)v]) continue;
                    seen[(size_t)v] = 1;
                    if (mt[(size_t)v] < 0 || tr(mt[(size_t)v])) { mt[(size_t)v] = u; return true; }
                }
                return false;
            };
            if (tr((int)i)) got++;
        }
        return got;
    };
    int need = 0;
    if (maxmatch(true, &need) < need) VIO("C07", "cond:too-many-wakeups", "condition %d: more waits returned than signals were given", ci);
    if (maxmatch(false, &need) < need) VIO("C07", "cond:wakeup-lost", "condition %d: a signal given while a waiter was present woke nobody", ci);
}

static void root_main(int, void *argv[]) {
    Act *a = (Act *)argv[0];
    a->id = neco_getid();
    a->st = Act::RUN;
    a->entered = 1;
    ++S.seq;
    if (!idset.insert(a->id).second) VIO("C12 C22", "start:id-reused", "root id %lld is not new", (long long)a->id);
    if (a->rt == 0) sig_on = true;
    bool fon = S.faults_on;
    setup_objects(a);
    if (P->seed & 1) rand_seed(a, (int64_t)(P->seed * 31 + (unsigned)a->rt % 2), 1);
    int64_t t0 = S.now;
    // start the actors in order of their start time
    std::vector<Act *> order;
    for (size_t i = 0; i < P->acts.size(); i++) if (acts[i]->rt == a->rt && !acts[i]->p->spawned) order.push_back(acts[i]);
    std::stable_sort(order.begin(), order.end(), [](Act *x, Act *y) { return x->p->start_us < y->p->start_us; });
    for (Act *t : order) {
        int64_t at = t0 + (int64_t)t->p->start_us * 1000;
        if (at > S.now) do_sleep(a, at, false, 0);
        do_spawn(a, t);
        if (S.now - t0 > 50ll * P->horizon_us * 1000) break;
    }
    // the root drops its own reference of channels the actors own
    for (size_t i = 0; i < P->chans.size(); i++)
        if (chans[i]->refmode && chans[i]->rt == a->rt && chans[i]->made) {
            chans[i]->refs--;
            neco_chan_release(chans[i]->c);
            if (chans[i]->refs == 0) chans[i]->made = false;
        }
    int64_t end = t0 + (int64_t)P->horizon_us * 1000;
    while (S.now < end && cur_nlive(a->rt) > 0) do_sleep(a, std::min(end, S.now + 5 * MS), false, 0);
    // faults stop; whatever is still waiting must now be able to finish
    S.faults_on = false;
    (void)fon;
    stopping = true;
    tracef("%.6f faults stop, actors are told to end", (double)S.now / 1e9 - 1000);
    for (Conn *c : conns) if (c->rt == a->rt && c->ext) ext_drain(c);
    for (int round = 0; cur_nlive(a->rt) > 0; round++) {
        for (size_t i = 0; i < P->acts.size(); i++) {
            Act *t = acts[i];
            if (t->rt != a->rt || t->st != Act::RUN || t->pend) continue;
            if (t->cstate == NECO_CANCEL_DISABLE) continue;
            if (round < 3 && t->cur && (t->cur->k == O_SLEEP || t->cur->k == O_SLEEPDL || t->cur->k == O_WORK)) continue;
            if (t->cur && (t->cur->k == O_DIAL || t->cur->k == O_GAI) && !t->cur->msg && S.now - t->cur->tinv < 8000 * MS && round < 60) continue;
            if (t->cur && (t->cur->k == O_DIAL || t->cur->k == O_GAI) && !t->cur->msg && t->cur->D == NODL)
                VIO(t->cur->k == O_DIAL ? "C17 C14 C13" : "C24 C14 C13", "net:stuck", "%s is still blocked in %s to address %d long after every peer and resolver answered", aname(t), op_names[t->cur->k], t->cur->obj);
            do_cancel(a, t, S.now + 2 * MS);
        }
        for (Conn *c : conns) if (c->rt == a->rt && c->ext) ext_drain(c);
        do_sleep(a, S.now + (round < 20 ? 1 : 200) * MS, false, 0);
        if (round > 150) {
            std::string who;
            const char *tags = "*";
            for (size_t i = 0; i < P->acts.size(); i++)
                if (acts[i]->rt == a->rt && acts[i]->st != Act::DONE && acts[i]->st != Act::IDLE) {
                    char b[96];
                    snprintf(b, sizeof b, " a%zu in %s obj=%d (state %d, %s);", i, acts[i]->cur ? op_names[acts[i]->cur->k] : "-", acts[i]->cur ? acts[i]->cur->obj : -1, acts[i]->st, acts[i]->cstate == NECO_CANCEL_DISABLE ? "disabled" : "enabled");
                    who += b;
                }
            VIO(tags, "life:stuck", "coroutines do not end although every one was cancelled:%s", who.c_str());
            sim_end_run();
        }
    }
    // final state of every object
    for (size_t i = 0; i < muts.size(); i++)
        if (muts[i]->rt == a->rt && muts[i]->holders.empty()) {
            int64_t r = neco_mutex_trylock(&muts[i]->m);
            if (r != NECO_OK) VIO("C06", "mutex:lost", "mutex %zu is free at the end but trylock returned %s", i, ename(r));
            else neco_mutex_unlock(&muts[i]->m);
        }
    for (size_t i = 0; i < chans.size(); i++) {
        ChanM *c = chans[i];
        if (!c->made || c->rt != a->rt) continue;
        if (c->refmode && !c->isgen) continue;
        if (c->isgen) {
            if (c->gact) { c->gact = nullptr; c->refs--; neco_gen_release((neco_gen *)c->c); }
            continue;
        }
        uint8_t b[3016];
        while (!c->buf.empty()) {
            int64_t r = neco_chan_tryrecv(c->c, b);
            if (r != NECO_OK || !okmsg(b, c->size, (int)i, c->buf.front())) { violation(tg("C01 C02", c->sclosed ? "C03" : "").c_str(), "chan:lost-in-buffer", "channel %zu: message %u is not in the buffer at the end (%s)", i, c->buf.front(), ename(r)); break; }
            c->buf.pop_front();
        }
        if (c->buf.empty()) {
            int64_t r = neco_chan_tryrecv(c->c, b);
            int64_t want = c->sclosed ? NECO_CLOSED : NECO_EMPTY;
            if (r != want) VIO(r == NECO_OK ? "C01" : "C03 C02", "chan:final-state", "channel %zu: an empty channel reports %s instead of %s at the end", i, ename(r), ename(want));
        }
        neco_chan_release(c->c);
    }
    rand_check(a);
    for (size_t i = 0; i < conds.size(); i++) if (conds[i]->rt == a->rt) cond_matching(conds[i], (int)i);
    for (size_t i = 0; i < wgs.size(); i++)
        if (wgs[i]->rt == a->rt) {
            while (wgs[i]->count > 0) { wgs[i]->count--; if (neco_waitgroup_done(&wgs[i]->w) != NECO_OK) { VIO("C08", "wg:count", "waitgroup %zu: the count is lower than added", i); break; } }
            if (wgs[i]->count == 0 && neco_waitgroup_done(&wgs[i]->w) != NECO_NEGWAITGRP) VIO("C08", "wg:count", "waitgroup %zu: the count is not zero at the end", i);
        }
    for (Conn *c : conns) {
        if (c->rt != a->rt) continue;
        for (int s = 0; s < (c->ext ? 1 : 2); s++) {
            if (!c->open[s]) continue;
            if (c->st[s]) {
                if (c->ext) ext_drain(c);
                c->rbusy[s] = c->wbusy[s] = nullptr;
                do_stream(a, O_SCLOSE, c, s, 0, S.now + MS);
            } else { fdmap.erase(c->fd[s]); c->open[s] = false; sim_close(c->fd[s]); }
        }
    }
    for (auto &l : lsocks) if (l.fd >= 0 && l.rt == a->rt) { sim_close(l.fd); l.fd = -1; }
    if (a->rt == 0 && sig_on) {
        // signals nobody fetched must still be there
        for (int s = 1; s < 32; s++) {
            if (sig_arr[s] == sig_del[s] || (s == SIGPIPE && sigpipe_fuzzy)) continue;
            sig_trans |= 1u << s;
            neco_signal_watch(s);
            a->sigwatch |= 1u << s;
            sig_add(s);
            while (sig_arr[s] > sig_del[s]) {
                OpRec *o = begin(a, O_SIGWAIT, -1, S.now + 5 * MS);
                o->blocked = true;
                int64_t r = neco_signal_wait_dl(o->D);
                fin(o, r);
                if (r != s) { VIO("C18", "signal:lost", "signal %d arrived %d times while watched but was delivered %d times", s, sig_arr[s], sig_del[s]); break; }
                sig_del[s]++;
            }
            neco_signal_unwatch(s);
            a->sigwatch &= ~(1u << s);
            sig_watchers[s]--;
            sig_trans &= ~(1u << s);
        }
    }
    exec(a, Op{O_STATS, {0}});
    a->cur = nullptr;
    if (a->rt == 0) sig_on = false;
    a->st = Act::DONE;
    roots_done++;
}

static void nop_work(void *) {}
static void outside_checks() {
    // the API outside a runtime
    struct { const char *n; int64_t r; } t[] = {
        {"yield", neco_yield()}, {"sleep", neco_sleep(1)}, {"join", neco_join(1)}, {"suspend", neco_suspend()}, {"cancel", neco_cancel(1)},
        {"getid", neco_getid()}, {"resume", neco_resume(1)}, {"wait", neco_wait(0, NECO_WAIT_READ)},
    };
    for (auto &e : t) if (e.r != NECO_PERM) VIO("C22 C25", "outside:accepted", "%s outside a runtime returned %s", e.n, ename(e.r));
    char ch = 0;
    neco_stats ns;
    neco_gen *gn = nullptr;
    neco_stream *sm = nullptr;
    neco_waitgroup wg;
    neco_cond cv;
    neco_mutex mx;
    memset(&wg, 0, sizeof wg), memset(&cv, 0, sizeof cv), memset(&mx, 0, sizeof mx);
    struct addrinfo *ai = nullptr;
    struct { const char *n; int64_t r; } u[] = {
        {"lastid", neco_lastid()}, {"starterid", neco_starterid()}, {"sleep_dl", neco_sleep_dl(S.now + 5)}, {"join_dl", neco_join_dl(1, S.now + 5)},
        {"suspend_dl", neco_suspend_dl(S.now + 5)}, {"gen_start", neco_gen_start(&gn, 4, nop_main, 0)}, {"gen_yield", neco_gen_yield(&ch)},
        {"mutex_trylock", neco_mutex_trylock(&mx)}, {"mutex_rdlock", neco_mutex_rdlock(&mx)}, {"mutex_unlock", neco_mutex_unlock(&mx)},
        {"waitgroup_add", neco_waitgroup_add(&wg, 1)}, {"waitgroup_wait", neco_waitgroup_wait(&wg)}, {"cond_signal", neco_cond_signal(&cv)},
        {"cond_wait", neco_cond_wait(&cv, &mx)}, {"setcanceltype", neco_setcanceltype(NECO_CANCEL_ASYNC, nullptr)}, {"setcancelstate", neco_setcancelstate(NECO_CANCEL_DISABLE, nullptr)},
        {"signal_watch", neco_signal_watch(SIGUSR1)}, {"signal_wait", neco_signal_wait()}, {"signal_unwatch", neco_signal_unwatch(SIGUSR1)},
        {"work", neco_work(0, nop_work, nullptr)}, {"getstats", neco_getstats(&ns)}, {"dial", neco_dial("tcp", "127.0.0.1:1")}, {"serve", neco_serve("tcp", "127.0.0.1:1")},
        {"stream_make", neco_stream_make(&sm, 3)}, {"read", neco_read(3, &ch, 1) == -1 ? neco_lasterr() : 0}, {"write", neco_write(3, &ch, 1) == -1 ? neco_lasterr() : 0},
        {"accept", neco_accept(3, nullptr, nullptr) == -1 ? neco_lasterr() : 0}, {"getaddrinfo", neco_getaddrinfo("x.sim", "80", nullptr, &ai) == EAI_SYSTEM ? neco_lasterr() : 0},
    };
    for (auto &e : u) if (e.r != NECO_PERM) VIO("C22 C25", "outside:accepted", "%s outside a runtime returned %s", e.n, ename(e.r));
    neco_mutex m;
    memset(&m, 0, sizeof m);
    if (neco_mutex_lock(&m) != NECO_PERM) VIO("C22", "outside:accepted", "mutex lock outside a runtime was accepted");
    neco_chan *c = nullptr;
    if (neco_chan_make(&c, 1, 1) != NECO_PERM) VIO("C22", "outside:accepted", "making a channel outside a runtime was accepted");
}

static void *rt_thread(void *arg) {
    Act *root = (Act *)arg;
    rtthr[(size_t)root->rt] = thr_self();
    outside_checks();
    int64_t r = neco_start(root_main, 1, root);
    // a first start that failed for lack of memory has no effect and can be repeated
    for (int i = 0; i < 64 && r == NECO_NOMEM && !root->entered && mem_failed_total; i++) {
        tracef("the first start reported out of memory");
        if (neco_lasterr() != NECO_NOMEM) VIO("C25", "lasterr:mismatch", "last error is %s after the first start returned NOMEM", ename(neco_lasterr()));
        r = neco_start(root_main, 1, root);
    }
    rtthr[(size_t)root->rt] = -1;
    if (r != NECO_OK) {
        if (root->entered) VIO("C12", "start:root-failed", "the first start returned %s after running", ename(r));
        else if (r != NECO_NOMEM || !mem_failed_total) VIO("C12 C20", "start:root-failed", "the first start returned %s", ename(r));
    } else {
        if (root->st != Act::DONE) VIO("C12", "start:returned-early", "the first start returned before its coroutine ended");
        for (Act *a : acts) if (a->rt == root->rt && a->st != Act::DONE && a->st != Act::IDLE) { VIO("C12 C11", "start:returned-early", "the first start returned before %s ended", aname(a)); break; }
    }
    if (neco_getid() != NECO_PERM) VIO("C22 C12", "outside:runtime-left", "a runtime is still active after the first start returned");
    outside_checks();
    return nullptr;
}

static int sig_exit_ok; // the handler that runs now may end the process
static void exit_hook(int code) {
    if (sig_exit_ok && code == 128 + sig_exit_ok) { probe(2); return; }
    if (expect_exit_sig && code == 128 + expect_exit_sig) { probe(2); return; }
    if (expect_exit_sig) { VIO("C18", "signal:exit-code", "signal %d ended the process with status %d", expect_exit_sig, code); return; }
    if (code > 128 && code < 160 && (exit_may & (1u << (code - 128)))) { probe(2); return; }
    if (code > 128 && !sig_on) return; // a signal that arrived while the runtime ends, or after that
    VIO("*", "exit:unexpected", "the process ended unexpectedly with status %d", code);
}
static void *cm_malloc(size_t n) { return mem_malloc(n); }
static void *cm_realloc(void *p, size_t n) { return mem_realloc(p, n); }
static void cm_free(void *p) { mem_free(p); }

static void *sig_initial[32];
void run_plan(const Plan &pl) {
    P = &pl;
    // only the runtime of the main thread handles SIGPIPE: a program with more of them ignores it
    if (pl.nrt > 1) sim_signal(SIGPIPE, (void *)SIG_IGN);
    for (int s = 1; s < 32; s++) sig_initial[s] = sim_sighandler_of(s);
    for (int i = 0; i < NFAULTS; i++) S.fprob[i] = pl.fprob[i];
    if (!variant_info.mt) S.fprob[F_SIG_MIDWAY] = 0;
    S.tick_ns = pl.tick_ns;
    if (variant_info.ringsize <= 16) { S.spin_reads = 40; S.max_steps = 1200000; } // submitters poll while a ring is full
    mem_fail_at = pl.mem_fail_at;
    mem_fail_count = pl.mem_fail_count;
    mmap_fail_at = pl.mmap_fail_at;
    hook_idle = idle_hook;
    hook_spin = spin_hook;
    hook_evfail = evfail_hook;
    hook_syield = syield_hook;
    hook_gai = gai_hook;
    hook_kwrite = kwrite_hook;
    hook_kread = kread_hook;
    hook_exit = exit_hook;
    rtthr.assign((size_t)pl.nrt, -1);
    on_signal_delivered = [](int s) {
        if (!sig_on || s <= 0 || s > 31) return;
        tracef("%.6f signal %d is delivered", (double)S.now / 1e9 - 1000, s);
        if (s == SIGPIPE && thr_self() != rtthr[0]) return; // raised on a background worker
        sig_exit_ok = 0;
        if (thr_self() != rtthr[0] || ((sig_trans | sig_gone) & (1u << s))) { // settled by what the handler does, see below
            if (s != SIGPIPE && (sig_watchers[s] == 0 || ((sig_trans | sig_gone) & (1u << s)))) sig_exit_ok = s;
            return;
        }
        sig_seq = rtops[0];
        sig_idle = rt0_idles;
        if (sig_watchers[s] > 0) sig_arr[s]++;
        else if (s != SIGPIPE) expect_exit_sig = s;
    };
    on_signal_returned = [](int s) {
        if (!sig_on || s <= 0 || s > 31) return;
        sig_exit_ok = 0;
        if (thr_self() == rtthr[0] && !stopping) sim_signal_echo(s);
        if (thr_self() != rtthr[0] ? s == SIGPIPE || sim_sig_pending(s) : !((sig_trans | sig_gone) & (1u << s))) return;
        if (s == SIGPIPE && sig_watchers[s] == 0) return;
        sig_seq = rtops[0];
        sig_idle = rt0_idles;
        sig_arr[s]++; // it was taken in
        if (sig_watchers[s] == 0 && !(sig_trans & (1u << s))) { if (s == SIGPIPE) sigpipe_fuzzy = true; else exit_may |= 1u << s; }
    };
    mem_fence = pl.allocator & 2;
    if (pl.allocator & 1) neco_env_setallocator(cm_malloc, cm_realloc, cm_free);
    neco_env_setcanceltype(pl.env_ctype == 1 ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE);
    neco_env_setcancelstate(pl.env_cstate ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE);
    for (size_t i = 0; i < pl.acts.size(); i++) {
        Act *a = new Act;
        a->idx = (int)i;
        a->p = &pl.acts[i];
        a->rt = a->p->rt;
        acts.push_back(a);
    }
    static ActP rootp{};
    for (int r = 0; r < pl.nrt; r++) {
        Act *a = new Act;
        a->idx = (int)acts.size();
        a->p = &rootp;
        a->rt = r;
        a->isroot = true;
        a->ctype = pl.env_ctype == 1 ? NECO_CANCEL_ASYNC : NECO_CANCEL_INLINE;
        a->cstate = pl.env_cstate ? NECO_CANCEL_DISABLE : NECO_CANCEL_ENABLE;
        acts.push_back(a);
    }
    for (auto &c : pl.chans) { ChanM *m = new ChanM; m->cap = c.cap; m->size = c.size; m->rt = c.rt; m->refmode = c.refmode; chans.push_back(m); }
    for (size_t i = 0; i < pl.acts.size(); i++)
        if (pl.acts[i].gen) {
            ChanM *m = new ChanM;
            m->size = pl.acts[i].gsize;
            m->isgen = true;
            m->rt = pl.acts[i].rt;
            acts[i]->gen = (int)chans.size();
            chans.push_back(m);
        }
    for (int r : pl.mutex_rt) { MutexM *m = new MutexM; memset(&m->m, 0, sizeof m->m); m->rt = r; muts.push_back(m); }
    for (int r : pl.wg_rt) { WgM *w = new WgM; memset(&w->w, 0, sizeof w->w); w->rt = r; wgs.push_back(w); }
    for (int r : pl.cond_rt) { CondM *c = new CondM; memset(&c->c, 0, sizeof c->c); c->rt = r; conds.push_back(c); }
    k_fd_zero = pl.fd0;
    k_fd_jump = pl.fdjump, k_fd_gap = pl.fdgap;
    for (auto &f : pl.fds) {
        Conn *c = new_conn(f.rt);
        c->type = f.type;
        if (f.type == 1) k_pipe(c->fd, f.cap, true); else k_socketpair(c->fd, f.cap, true);
        c->open[0] = c->open[1] = true;
        fdmap[c->fd[0]] = {c, 0};
        fdmap[c->fd[1]] = {c, 1};
        if (f.ext && f.type == 0) { c->ext = ext_attach(c->fd[0]); fdmap.erase(c->fd[1]); k_close_keep_peer(c->fd[1]); }
    }
    lsocks.resize(pl.addrs.size());
    net_setup();
    if (k_fd_zero) k_fd_zero = 1;
    for (auto &x : pl.xevs) { XEv e = x; sim_at(S.now + (int64_t)x.t_us * 1000, [e] { if (!stopping || e.kind == XE_DRAIN) apply_xev(e); }); }
    std::vector<int> ths;
    for (int r = 1; r < pl.nrt; r++) ths.push_back(thr_spawn(rt_thread, acts[pl.acts.size() + (size_t)r]));
    rt_thread(acts[pl.acts.size()]);
    for (int t : ths) thr_join(t);
    for (Conn *c : conns) { // of a runtime that never started
        if (acts[pl.acts.size() + (size_t)c->rt]->entered) continue;
        for (int s = 0; s < (c->ext ? 1 : 2); s++) if (c->open[s]) { c->open[s] = false; fdmap.erase(c->fd[s]); sim_close(c->fd[s]); }
    }
    // everything the library created must be gone
    int64_t limit = S.now + 20000 * MS;
    while (thr_live() > 0 && S.now < limit) { struct timespec ts = {0, 10000000}; hook_idle = nullptr; sim_nanosleep(&ts, nullptr); }
    if (thr_live() > 0) VIO("C20 C24 C19", "leak:thread", "%d threads are still running 20 s after the runtime ended", thr_live());
    if (!thr_live() && thr_unreaped()) VIO("C20 C19 C24", "leak:thread-handle", "%d threads ended without being joined or detached", thr_unreaped());
    mem_check_all("end");
    bool gleak = false;
    for (void *g : gen_blocks) gleak |= mem_live_blocks() && mem_is_live(g);
    if (mem_live_blocks()) VIO(gleak ? "C20 C05" : "C20", "leak:memory", "%lld blocks (%lld bytes) are still allocated after the runtime ended: %s", (long long)mem_live_blocks(), (long long)mem_live_bytes(), mem_leak_report().c_str());
    if (mmap_live()) VIO("C20 C23", "leak:stack", "%lld stack mappings are left after the runtime ended", (long long)mmap_live());
    if (gai_live()) VIO("C24 C17 C20", "leak:addrinfo", "%d address results were never freed", gai_live());
    for (auto &f : fdmap) (void)f;
    if (k_open_fds()) VIO("C20 C17 C24", "leak:fd", "descriptors are left open after the runtime ended: %s", k_fd_list().c_str());
    for (int s = 1; s < 32; s++) if (sim_sighandler_of(s) != sig_initial[s]) { VIO("C18", "signal:handler-left", "the handler of signal %d was not restored", s); break; }
    if (sim_sigstack()) VIO("C18 C20", "signal:stack-left", "the signal stack is still installed after the runtime ended");
    R->ops = nops;
}
