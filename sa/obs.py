"""The obligations themselves (see oblig.py).  Enumerators are read from the tree."""
from .oblig import site, rows, rd, raft_log, trk, THIS
from . import eng
from .eng import len_
from .terms import *

ENUM = {}


def E(n):
    return intc(ENUM[n])


def calls_in(st, q, *more):
    """the calls of q that the conditions of the path (and these terms) speak about"""
    out = []
    for l in list(st.lits()) + [x for x in more if x is not None]:
        for x in list(subterms(l)) + list(subterms(st.facts.canon(l))):
            if x.op == 'call' and x.a[0] == q and x not in out:
                out.append(x)
    return out


def ret(c):
    return mk('app', 'ret', c)


def sel(c, p):
    return mk('app', 'sel', mk('app', 'ret', c), strc(p))


def any_(st, q, f):
    """some call of q on this path has result property f"""
    return or_(*[f(c) for c in calls_in(st, q)]) if calls_in(st, q) else FALSE


def implies(a, b):
    return or_(neg(a), b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return neg(eq(a, b))


def mtype(e):
    return e.msg('type')


def is_(e, *names):
    return or_(*[eq(mtype(e), E(n)) for n in names])


def T0(e, phi):
    """entry value of a field of this"""
    return mk('init', mk('f', e.this, phi))


def LOG(e, phi):
    return e.rd('RaftLog::' + phi, e.rd('Raft::raft_log_'))


def only(p, *allowed):
    """the path changes nothing but these fields"""
    return all(x in allowed for x in p.written())


ZERO_ = intc(0)
STEPS = 'Raft::Step Raft::StepLeader Raft::StepCandidate Raft::StepFollower Raft::TickElection Raft::TickHeartbeat Raft::Hup Raft::Campaign Raft::HandleSnapshot'


def peers_in_term(I, st, this, args):
    """messages only a leader sends reach the role handlers in the node's own term (proved at Step's dispatch)"""
    t = rd(I, st, mk('sym', 'arg0'), 'pb.type')
    return [implies(or_(*[eq(t, E(n)) for n in ('MsgApp', 'MsgHeartbeat', 'MsgSnap')]),
                    eq(rd(I, st, mk('sym', 'arg0'), 'pb.term'), rd(I, st, this, 'Raft::term_')))]


def _is_call(t, q):
    return TRUE if t.op == 'app' and t.a[0] == 'ret' and t.a[1].op == 'call' and t.a[1].a[0] == q else FALSE


def _zt(e):
    cs = calls_in(e.st, 'RaftLog::ZeroTermOnErrCompacted')
    return ret(cs[0]) if cs else mk('sym', 'none')


def _after(e):
    ents = [x for l in e.st.lits() for x in subterms(l) if x.op == 'init' and x.a[0].op == 'f' and x.a[0].a[1] == 'pb.index']
    return or_(*[ge(sub(x, intc(1)), e.rd('RaftLog::committed_')) for x in ents]) if ents else FALSE


def _meta(e, name):
    return mk('init', mk('f', mk('f', e.par(0), 'pb.metadata'), 'pb.' + name))


def S_(e, name):
    """field of the message being sent"""
    return e.rd('pb.' + name, e.arg(0))


def bases(e, phi):
    """objects whose field phi the path's conditions speak about"""
    return list(dict.fromkeys(x.a[0].a[0] for l in e.st.lits() for x in subterms(l) if x.op in ('init', 'rv') and x.a[0].op == 'f' and x.a[0].a[1] == phi))


def _notpaused(e):
    out = []
    for b in bases(e, 'Progress::state_'):
        st = mk('init', mk('f', b, 'Progress::state_'))
        out.append(and_(ne(st, E('kSnapshot')), implies(eq(st, E('kProbe')), ne(mk('init', mk('f', b, 'Progress::probe_sent_')), TRUE)),
                        implies(eq(st, E('kReplicate')), any_(e.st, 'Inflights::Full', lambda c: neg(ret(c))))))
    return or_(*out) if out else FALSE


def _active(e):
    bs = bases(e, 'Progress::recent_active_')
    return or_(*[mk('init', mk('f', b, 'Progress::recent_active_')) for b in bs]) if bs else FALSE



def fresh(b):
    """an object this function has just made"""
    return any(x.op == 'new' for x in subterms(b))


def _last_of(t, phi):
    return t.op == 'init' and t.a[0].op == 'f' and t.a[0].a[1] == phi


def _forced(p):
    """the request is a forced (transfer) campaign: its context is the transfer marker"""
    out = [x for l in p.st.lits() for x in subterms(l) if x.op == 'eq' and any(y.op == 'str' for y in x.a) and any('pb.context' in show(y) for y in x.a)]
    return or_(*out) if out else FALSE


def _storage_empty(e):
    return any(x.op == 'eq' and any(y.op == 'int' and y.a[0] == 0 for y in x.a) and 'LastIndex' in show(x) for x in e.st.lits())


def _objs(p, phi):
    return list(dict.fromkeys(x.a[0].a[0] for l in list(p.st.lits()) + [p.ret] for x in subterms(l) if x.op in ('init', 'rv') and x.a[0].op == 'f' and x.a[0].a[1] == phi))


def _lematch(e):
    bs = list(dict.fromkeys(x.a[0].a[0] for l in list(e.st.lits()) + [S_(e, 'commit')] for x in subterms(l) if x.op == 'init' and x.a[0].op == 'f' and x.a[0].a[1] == 'Progress::match_'))
    return or_(*[le(S_(e, 'commit'), mk('init', mk('f', b, 'Progress::match_'))) for b in bs]) if bs else FALSE


def _ok(p):
    r = p.ret
    if r.op == 'obj':
        r = _tup(p, '1')
    return eq(r, NULL)


def _tup(p, i):
    """component i of a returned tuple"""
    r = p.ret
    if r.op == 'obj':
        for k, v in r.a[1]:
            if str(k) == i:
                return v
    return mk('sym', 'none')


def _first(p):
    xs = [x for l in p.st.lits() for x in subterms(l) if x.op == 'init' and x.a[0].op == 'f' and x.a[0].a[1] == 'pb.index' and 'ents_' in show(x)]
    return xs[0] if xs else mk('sym', 'none')


def _then(p, phi, q):
    """on this path the field was last changed through a call of q or later"""
    b = p.st.base.get(phi)
    return b is not None and any(x.op == 'call' and x.a[0] == q for x in subterms(b))


def _status(p):
    r, log = p.pre('RawNode::raft_'), None
    log = mk('init', mk('f', r, 'Raft::raft_log_'))
    want = {'NodeBasicStatus::applied': mk('init', mk('f', log, 'RaftLog::applied_')), 'NodeBasicStatus::id': mk('init', mk('f', r, 'Raft::id_')),
            'NodeBasicStatus::lead_transferee': mk('init', mk('f', r, 'Raft::lead_transferee_'))}
    got = {str(k): v for k, v in p.ret.a[1]}
    return [eq(got.get(k, ZERO_), v) for k, v in want.items()] + [eq(_sub(got.get('NodeBasicStatus::hard_state'), 'pb.commit'), mk('init', mk('f', log, 'RaftLog::committed_'))),
            eq(_sub(got.get('NodeBasicStatus::hard_state'), 'pb.term'), mk('init', mk('f', r, 'Raft::term_')))]


def _sub(o, k):
    return {str(a): b for a, b in o.a[1]}.get(k, ZERO_) if o is not None and o.op == 'obj' else mk('sym', 'none')


def _jointness(p):
    """the outgoing half of the copied membership is empty on entry and not empty on leaving"""
    out = [len_(sel(c, '.0.ProgressTracker::Config::voters.JointConfig::configs_[1].MajorityConfig::config_')) for c in calls_in(p.st, 'Changer::CheckAndCopy')]
    inc = [len_(sel(c, '.0.ProgressTracker::Config::voters.JointConfig::configs_[0].MajorityConfig::config_')) for c in calls_in(p.st, 'Changer::CheckAndCopy')]
    if p.fn.q.endswith('EnterJoint'):
        return and_(*[eq(x, ZERO_) for x in out] + [ne(x, ZERO_) for x in inc])
    return and_(*[ne(x, ZERO_) for x in out])


def _uptodate(p):
    lt_ = calls_in(p.st, 'RaftLog::LastTerm', p.ret)
    out = []
    for c in lt_:
        t = ret(c)
        out.append(implies(lt(p.par(1), t), ne(p.ret, TRUE)))
        out.append(implies(lt(t, p.par(1)), eq(p.ret, TRUE)))
    return out or FALSE


# ------------------------------------------------------------------ C01
site('C01', 'a vote is recorded only for a candidate that may have it',
     'Raft::Step', lambda e: implies(ne(e.val, ZERO_), and_(
         is_(e, 'MsgVote'), eq(e.val, e.msg('from')), or_(eq(e.old(), e.msg('from')), and_(eq(e.old(), ZERO_), eq(e.rd('Raft::lead_'), ZERO_))),
         any_(e.st, 'RaftLog::IsUpToData', ret))),
     writes='Raft::vote_', inline='Raft::BecomeFollower Raft::Reset', closed=False)
site('C01', 'the vote is cleared only when the term changes, otherwise it is the own vote of a new candidacy',
     'Raft::BecomeFollower Raft::BecomeCandidate Raft::BecomeLeader Raft::Reset Raft::BecomePreCandidate', lambda e: or_(
         and_(eq(e.val, ZERO_), ne(e.rd('Raft::term_'), T0(e, 'Raft::term_'))), eq(e.val, e.rd('Raft::id_'))),
     writes='Raft::vote_', inline='Raft::Reset', closed=False)
site('C01', 'a grant is answered only together with the recorded vote, a refusal is marked',
     'Raft::Step', lambda e: implies(and_(eq(e.rd('pb.type', e.arg(0)), E('MsgVoteResp')), ne(e.rd('pb.reject', e.arg(0)), TRUE)),
                                     and_(is_(e, 'MsgVote'), eq(e.rd('pb.to', e.arg(0)), e.msg('from')), any_(e.st, 'RaftLog::IsUpToData', ret))),
     calls='Raft::Send', inline='Raft::BecomeFollower Raft::Reset Util::VoteRespMsgType', closed=False)
rows('C01', 'up-to-date means a higher last term, or the same and an index at least as large',
     'RaftLog::IsUpToData', lambda p: _uptodate(p))


# ------------------------------------------------------------------ C02
site('C02', 'the term is only raised (or kept)', STEPS + ' Raft::Restore', lambda e: ge(e.val, e.old()),
     writes='Raft::term_', inline='Raft::BecomeFollower Raft::Reset Raft::BecomeCandidate Raft::BecomePreCandidate Raft::BecomeLeader Raft::Campaign Raft::Hup Raft::Restore Raft::HandleSnapshot',
     assume=peers_in_term, exempt='Raft::LoadState')          # restart: the state saved earlier, before any message (C27)
site('C02', 'a role handler gets a peer\'s message only in the node\'s own term (a granted pre-vote aside)', 'Raft::Step',
     lambda e: or_(eq(e.msg('term'), ZERO_), eq(e.msg('term'), e.rd('Raft::term_')), and_(is_(e, 'MsgPreVoteResp'), ne(e.msg('reject'), TRUE)), is_(e, 'MsgPreVote')),
     calls='$fnval', inline='Raft::BecomeFollower Raft::Reset')
rows('C02', 'a message of a lower term changes nothing but the outgoing messages', 'Raft::Step',
     lambda p: TRUE if only(p, 'Raft::msgs_') else or_(eq(p.rd('pb.term', p.par(0)), ZERO_), ge(p.rd('pb.term', p.par(0)), p.pre('Raft::term_'))),
     inline='Raft::BecomeFollower Raft::Reset')

# ------------------------------------------------------------------ C03
site('C03', 'a candidate becomes leader only when the poll of its own answers is won', 'Raft::StepCandidate',
     lambda e: and_(ne(e.rd('Raft::state_'), E('kPreCandidate')), is_(e, 'MsgVoteResp'),
                    any_(e.st, 'Raft::Poll', lambda c: eq(sel(c, '.2'), E('kVoteWon')))),
     calls='Raft::BecomeLeader', closed=False)
site('C03', 'a pre-candidate starts the real election only when the pre-vote poll is won', 'Raft::StepCandidate',
     lambda e: and_(eq(e.rd('Raft::state_'), E('kPreCandidate')), is_(e, 'MsgPreVoteResp'), eq(e.arg(0), E('kElection')),
                    any_(e.st, 'Raft::Poll', lambda c: eq(sel(c, '.2'), E('kVoteWon')))),
     calls='Raft::Campaign', closed=False)
site('C03', 'a lone voter becomes leader only on its own winning vote in a real election', 'Raft::Campaign',
     lambda e: any_(e.st, 'Raft::Poll', lambda c: and_(eq(sel(c, '.2'), E('kVoteWon')), eq(e.st.facts.canon(c.a[1][2]), E('MsgVoteResp')))),
     calls='Raft::BecomeLeader', closed=False)
site('C03', 'nothing else makes a node leader', 'Raft::StepCandidate Raft::Campaign', lambda e: TRUE, calls='Raft::BecomeLeader')
site('C03', 'only a won pre-vote, a timeout or a transfer starts an election', 'Raft::Hup Raft::Campaign Raft::StepCandidate Raft::StepFollower Raft::Step', lambda e: TRUE, calls='Raft::Campaign')
rows('C03', 'a follower never turns leader directly', 'Raft::BecomeLeader', lambda p: TRUE if p.fatal else ne(p.pre('Raft::state_'), E('kFollower')))
rows('C03', 'the poll counts the answer of the node asked and reports the tally', 'Raft::Poll',
     lambda p: [FALSE] if not calls_in(p.st, 'ProgressTracker::TallyVotes', p.ret) else TRUE)
site('C03', 'the first answer of a node stands', 'ProgressTracker::RecordVote',
     lambda e: neg(mk('contains', T0(e, 'ProgressTracker::votes_'), e.par(0))), writes='ProgressTracker::votes_', closed=False)

# ------------------------------------------------------------------ C04
site('C04', 'the leader commits the quorum index, in its own term', 'Raft::MaybeCommit',
     lambda e: and_(eq(e.arg(1), e.rd('Raft::term_')), _is_call(e.arg(0), 'ProgressTracker::Committed')), calls='RaftLog::MaybeCommit')
site('C04', 'commit moves forward only, to an entry of the given term', 'RaftLog::MaybeCommit',
     lambda e: and_(eq(e.arg(0), e.par(0)), gt(e.par(0), e.rd('RaftLog::committed_')), eq(_zt(e), e.par(1))), calls='RaftLog::CommitTo', closed=False)
site('C04', 'the commit index only grows and stays within the log', 'RaftLog::CommitTo',
     lambda e: and_(gt(e.val, e.old()), any_(e.st, 'RaftLog::LastIndex', lambda c: le(e.val, ret(c)))), writes='RaftLog::committed_', closed=False)
site('C04', 'nothing else writes the commit index', 'RaftLog::CommitTo RaftLog::Restore RaftLog::NewWithSize', lambda e: TRUE, writes='RaftLog::committed_')
rows('C04', 'the tracker commits what the voters acknowledged', 'ProgressTracker::Committed',
     lambda p: TRUE if calls_in(p.st, 'JointConfig::CommittedIndex', p.ret) or calls_in(p.st, 'MajorityConfig::CommittedIndex', p.ret) else FALSE)

# ------------------------------------------------------------------ C05
site('C05', 'a follower accepts entries only where the preceding entry matches', 'RaftLog::MaybeAppend',
     lambda e: any_(e.st, 'RaftLog::MatchTerm', lambda c: and_(ret(c), eq(e.st.facts.canon(c.a[1][1]), e.par(0)), eq(e.st.facts.canon(c.a[1][2]), e.par(1)))),
     calls='RaftLog::Append RaftLog::CommitTo', closed=False)
site('C05', 'only the conflicting tail past the commit index is replaced', 'RaftLog::MaybeAppend',
     lambda e: any_(e.st, 'RaftLog::FindConflict', lambda c: and_(ne(ret(c), ZERO_), gt(ret(c), e.rd('RaftLog::committed_')))), calls='RaftLog::Append', closed=False)
site('C05', 'a follower commits no further than the last entry it was sent', 'RaftLog::MaybeAppend',
     lambda e: le(e.arg(0), e.par(2)),
     calls='RaftLog::CommitTo', closed=False)
site('C05', 'entries at or below the commit index are never truncated', 'RaftLog::Append',
     _after, calls='Unstable::TruncateAndAppend')
site('C05', 'a probe below the commit index is not appended', 'Raft::HandleAppendEntries',
     lambda e: and_(ge(e.msg('index'), LOG(e, 'committed_')), eq(e.arg(0), e.msg('index')), eq(e.arg(1), e.msg('logterm')), eq(e.arg(2), e.msg('commit'))),
     calls='RaftLog::MaybeAppend')
site('C05', 'an acceptance carries the last accepted index, a rejection the rejected one', 'Raft::HandleAppendEntries',
     lambda e: and_(eq(e.rd('pb.to', e.arg(0)), e.msg('from')), eq(e.rd('pb.type', e.arg(0)), E('MsgAppResp')), or_(
         and_(eq(e.rd('pb.reject', e.arg(0)), TRUE), eq(e.rd('pb.index', e.arg(0)), e.msg('index'))),
         eq(e.rd('pb.index', e.arg(0)), LOG(e, 'committed_')),
         any_(e.st, 'RaftLog::MaybeAppend', lambda c: and_(sel(c, '.1'), eq(e.rd('pb.index', e.arg(0)), sel(c, '.0')))))),
     calls='Raft::Send', closed=False)

# ------------------------------------------------------------------ C06
site('C06', 'a leader stamps its entries with its own term', 'Raft::AppendEntry', lambda e: eq(e.val, e.rd('Raft::term_')), writes='pb.term', closed=False)
site('C06', 'an appended batch passed the quota and goes to the log whole', 'Raft::AppendEntry',
     lambda e: any_(e.st, 'Raft::IncreaseUncommittedSize', ret), calls='RaftLog::Append', closed=False)
site('C06', 'only a leader appends entries of its own', 'Raft::BecomeLeader Raft::StepLeader Raft::Advance',
     lambda e: or_(eq(e.rd('Raft::state_'), E('kLeader')), is_(e, 'MsgProp') if e.fn.q.endswith('StepLeader') else FALSE), calls='Raft::AppendEntry')

# ------------------------------------------------------------------ C07
site('C07', 'the applied index only grows and stays within the commit index', 'RaftLog::AppliedTo',
     lambda e: and_(le(e.old(), e.val), le(e.val, e.rd('RaftLog::committed_')), eq(e.val, e.par(0))), writes='RaftLog::applied_', closed=False)
site('C07', 'nothing else writes the applied index', 'RaftLog::AppliedTo RaftLog::NewWithSize', lambda e: TRUE, writes='RaftLog::applied_')
site('C07', 'the entries handed out start right after the applied one and end at the commit index', 'RaftLog::NextEnts',
     lambda e: and_(eq(e.arg(1), add(e.rd('RaftLog::committed_'), intc(1))), ge(e.arg(0), add(e.rd('RaftLog::applied_'), intc(1))),
                    lt(e.arg(0), e.arg(1)), any_(e.st, 'RaftLog::FirstIndex', lambda c: or_(eq(e.arg(0), add(e.rd('RaftLog::applied_'), intc(1))), eq(e.arg(0), ret(c))))),
     calls='RaftLog::Slice', closed=False)
rows('C07', 'entries are pending exactly when the commit index is past them', 'RaftLog::HasNextEnts',
     lambda p: implies(le(p.pre('RaftLog::committed_'), p.pre('RaftLog::applied_')), ne(p.ret, TRUE)))

# ------------------------------------------------------------------ C09
site('C09', 'only a follower installs a snapshot, and only one past its commit index that its log does not hold', 'Raft::Restore',
     lambda e: and_(eq(e.rd('Raft::state_'), E('kFollower')), gt(_meta(e, 'index'), LOG(e, 'committed_')),
                    any_(e.st, 'RaftLog::MatchTerm', lambda c: and_(neg(ret(c)), eq(e.st.facts.canon(c.a[1][1]), _meta(e, 'index')), eq(e.st.facts.canon(c.a[1][2]), _meta(e, 'term'))))),
     calls='RaftLog::Restore')
site('C09', 'a snapshot the log already holds only moves the commit index to it', 'Raft::Restore',
     lambda e: and_(eq(e.arg(0), _meta(e, 'index')), any_(e.st, 'RaftLog::MatchTerm', ret)), calls='RaftLog::CommitTo', closed=False)
site('C09', 'installing moves the commit index to the snapshot', 'RaftLog::Restore', lambda e: eq(e.val, _meta(e, 'index')), writes='RaftLog::committed_', closed=False)
site('C09', 'the answer names the installed index or the commit index', 'Raft::HandleSnapshot',
     lambda e: and_(eq(e.rd('pb.type', e.arg(0)), E('MsgAppResp')), eq(e.rd('pb.to', e.arg(0)), e.msg('from')),
                    any_(e.st, 'Raft::Restore', lambda c: or_(ret(c), eq(e.rd('pb.index', e.arg(0)), LOG(e, 'committed_'))))), calls='Raft::Send', closed=False)

# ------------------------------------------------------------------ C10, C11, C12
site('C10', 'a snapshot goes only to an active follower, after the log had to refuse', 'Raft::MaybeSendAppend',
     lambda e: implies(eq(S_(e, 'type'), E('MsgSnap')), and_(_active(e), any_(e.st, 'RaftLog::Snapshot', lambda c: TRUE), or_(
         any_(e.st, 'RaftLog::Term', lambda c: ne(sel(c, '.1'), NULL)), any_(e.st, 'RaftLog::Entries', lambda c: ne(sel(c, '.1'), NULL))))),
     calls='Raft::Send', closed=False)
site('C10', 'replication to the follower stops at the snapshot it was sent', 'Raft::MaybeSendAppend',
     lambda e: implies(eq(S_(e, 'type'), E('MsgSnap')), or_(*[and_(eq(e.rd('Progress::state_', b), E('kSnapshot')), ne(e.rd('Progress::pending_snapshot_', b), ZERO_))
                                                             for b in bases(e, 'Progress::state_')])), calls='Raft::Send', closed=False)
site('C11', 'nothing is sent to a paused follower', 'Raft::MaybeSendAppend', lambda e: _notpaused(e), calls='Raft::Send', closed=False)
site('C11', 'a slot is taken only while one is free', 'Inflights::Add', lambda e: ne(T0(e, 'Inflights::count_'), T0(e, 'Inflights::size_')),
     writes='Inflights::count_ Inflights::buffer_', inline='Inflights::Full', closed=False)
site('C11', 'freeing only frees', 'Inflights::FreeLE Inflights::FreeFirstOne Inflights::Reset', lambda e: le(e.val, e.old()), writes='Inflights::count_', closed=False, inline='Inflights::FreeLE')
site('C12', 'acknowledged progress only grows, to what was acknowledged', 'Progress::MaybeUpdate Progress::Clone',
     lambda e: TRUE if fresh(e.obj) else and_(gt(e.val, e.old()), eq(e.val, e.par(0))), writes='Progress::match_')
rows('C12', 'an acknowledgement never lowers the next index, which stays past it', 'Progress::MaybeUpdate',
     lambda p: and_(ge(p.rd('Progress::next_'), p.pre('Progress::next_')), gt(p.rd('Progress::next_'), p.par(0))))
rows('C12', 'a rejection lowers the next index but never to zero', 'Progress::MaybeDecrTo',
     lambda p: implies(eq(p.ret, TRUE), gt(p.rd('Progress::next_'), ZERO_)), assume=lambda I, st, this, a: [ge(rd(I, st, this, 'Progress::match_'), ZERO_)])
rows('C12', 'a stale rejection changes nothing', 'Progress::MaybeDecrTo', lambda p: TRUE if only(p) else eq(p.ret, TRUE))
rows('C12', 'replication continues right after what is known to match', 'Progress::BecomeReplicate Progress::BecomeProbe',
     lambda p: TRUE if p.fatal else gt(p.rd('Progress::next_'), p.rd('Progress::match_')))



# ------------------------------------------------------------------ C08
rows('C08', 'a batch must be synced when it has entries or the term or vote changed', 'MustSync',
     lambda p: [implies(neg(p.ret), and_(eq(p.rd('pb.vote', p.par(0)), p.rd('pb.vote', p.par(1))), eq(p.rd('pb.term', p.par(0)), p.rd('pb.term', p.par(1))), eq(p.par(2), ZERO_)))])
rows('C08', 'nothing pending means no message, read state or soft state change is left behind', 'RawNode::HasReady',
     lambda p: implies(neg(p.ret), and_(*[neg(ret(c)) for c in calls_in(p.st, 'RaftLog::HasNextEnts', p.ret)])))
site('C08', 'acknowledging a batch marks stable exactly its last entry', 'Raft::Advance',
     lambda e: TRUE if _last_of(e.arg(0), 'pb.index') and _last_of(e.arg(1), 'pb.term') else FALSE, calls='RaftLog::StableTo')
site('C08', 'only acknowledged entries count as applied', 'Raft::Advance', lambda e: ne(e.arg(0), ZERO_), calls='RaftLog::AppliedTo', closed=False)

# ------------------------------------------------------------------ C13
site('C13', 'a read is answered at once only by a lone voter', 'Raft::StepLeader',
     lambda e: or_(and_(is_(e, 'MsgReadIndex'), any_(e.st, 'ProgressTracker::IsSingleton', ret), eq(e.arg(1), LOG(e, 'committed_'))),
                   and_(is_(e, 'MsgHeartbeatResp'), any_(e.st, 'JointConfig::VoteResult', lambda c: eq(ret(c), E('kVoteWon'))))),
     calls='Raft::ResponseToReadIndexReq', closed=False)
site('C13', 'a read is queued for confirmation only once an entry of the current term is committed', 'Raft::StepLeader Raft::ReleasePendingReadIndexMessages',
     lambda e: any_(e.st, 'Raft::CommittedEntryinCurrentTerm', ret), calls='Raft::SendMsgReadIndexResponse')
site('C13', 'a read without a round of heartbeats is answered only in lease mode', 'Raft::SendMsgReadIndexResponse',
     lambda e: and_(or_(*[eq(mk('init', mk('f', b, 'ReadOnly::option_')), E('kLeaseBased')) for b in bases(e, 'ReadOnly::option_')] or [FALSE]), eq(e.arg(1), LOG(e, 'committed_'))),
     calls='Raft::ResponseToReadIndexReq', closed=False)
site('C13', 'a safe read remembers the commit index of its arrival', 'Raft::SendMsgReadIndexResponse', lambda e: eq(e.arg(0), LOG(e, 'committed_')), calls='ReadOnly::AddRequest')
rows('C13', 'a term\'s commit is recognised by the term of the committed entry', 'Raft::CommittedEntryinCurrentTerm',
     lambda p: [iff(p.ret, eq(ret(c), p.pre('Raft::term_'))) for c in calls_in(p.st, 'RaftLog::ZeroTermOnErrCompacted', p.ret)] or FALSE)

# ------------------------------------------------------------------ C14
rows('C14', 'a pre-vote request changes nothing but the outgoing messages', 'Raft::Step',
     lambda p: TRUE if only(p, 'Raft::msgs_') else ne(p.pre('pb.type', p.par(0)), E('MsgPreVote')), inline='Raft::BecomeFollower Raft::Reset')
rows('C14', 'a pre-candidate keeps its term and its vote', 'Raft::BecomePreCandidate',
     lambda p: TRUE if p.fatal else and_(eq(p.rd('Raft::term_'), p.pre('Raft::term_')), eq(p.rd('Raft::vote_'), p.pre('Raft::vote_')), eq(p.rd('Raft::state_'), E('kPreCandidate'))))
site('C14', 'pre-vote requests carry the next term, vote requests the own one', 'Raft::Campaign',
     lambda e: or_(and_(eq(S_(e, 'type'), E('MsgPreVote')), eq(S_(e, 'term'), add(e.rd('Raft::term_'), intc(1))), eq(e.par(0), E('kPreElection'))),
                   and_(eq(S_(e, 'type'), E('MsgVote')), eq(S_(e, 'term'), e.rd('Raft::term_')))), calls='Raft::Send', closed=False)

# ------------------------------------------------------------------ C15, C16, C17
site('C15', 'a leader steps down in its term only when its quorum is not active', 'Raft::StepLeader',
     lambda e: and_(is_(e, 'MsgCheckQuorum'), eq(e.arg(0), e.rd('Raft::term_')), eq(e.arg(1), ZERO_), any_(e.st, 'ProgressTracker::QuorumActive', lambda c: neg(ret(c)))),
     calls='Raft::BecomeFollower', closed=False)
rows('C15', 'a vote request within the lease of a known leader changes nothing at all', 'Raft::Step',
     lambda p: TRUE if only(p) and not p.fatal else neg(and_(
         or_(eq(p.pre('pb.type', p.par(0)), E('MsgVote')), eq(p.pre('pb.type', p.par(0)), E('MsgPreVote'))), gt(p.pre('pb.term', p.par(0)), p.pre('Raft::term_')),
         ne(p.pre('pb.term', p.par(0)), ZERO_), p.pre('Raft::check_quorum_'), ne(p.pre('Raft::lead_'), ZERO_), lt(p.pre('Raft::election_elapsed_'), p.pre('Raft::election_timeout_')),
         neg(_forced(p)))), inline='Raft::BecomeFollower Raft::Reset')
site('C16', 'a transferee is told to campaign only once its log is complete', 'Raft::StepLeader',
     lambda e: any_(e.st, 'RaftLog::LastIndex', lambda c: or_(*[eq(e.rd('Progress::match_', b), ret(c)) for b in bases(e, 'Progress::match_')])) if bases(e, 'Progress::match_') else
     any_(e.st, 'RaftLog::LastIndex', lambda c: or_(*[eq(x, ret(c)) for l in e.st.lits() for x in subterms(l) if x.op == 'rv' and 'match_' in show(x)[-40:]] or [FALSE])),
     calls='Raft::SendTimeoutNow')
site('C16', 'while a transfer is pending no proposal enters the log', 'Raft::StepLeader',
     lambda e: eq(T0(e, 'Raft::lead_transferee_'), ZERO_), calls='Raft::AppendEntry', closed=False)
site('C16', 'leadership is transferred only to another voter, and the window starts afresh', 'Raft::StepLeader',
     lambda e: or_(eq(e.val, ZERO_), and_(is_(e, 'MsgTransferLeader'), eq(e.val, e.msg('from')), ne(e.val, e.rd('Raft::id_')), eq(e.rd('Raft::election_elapsed_'), ZERO_))),
     writes='Raft::lead_transferee_', closed=False)
site('C17', 'no campaign while a committed membership change is not applied', 'Raft::Hup',
     lambda e: or_(any_(e.st, 'Raft::NumOfPendingConf', lambda c: eq(ret(c), ZERO_)), le(LOG(e, 'committed_'), LOG(e, 'applied_'))), calls='Raft::Campaign', closed=False)
site('C17', 'a new leader treats its whole log as possibly holding a change', 'Raft::BecomeLeader',
     lambda e: TRUE if _is_call(e.val, 'RaftLog::LastIndex') else FALSE, writes='Raft::pending_conf_index_', closed=False, inline='')

# ------------------------------------------------------------------ C22, C23, C24, C25
site('C22', 'every outgoing message has a sender', 'Raft::Send', lambda e: or_(ne(e.rd('pb.from', e.par(0)), ZERO_), eq(e.rd('Raft::id_'), ZERO_)), writes='Raft::msgs_', closed=False)
site('C22', 'vote traffic carries a term; everything else the own term, forwarded requests none', 'Raft::Send',
     lambda e: or_(and_(or_(*[eq(e.rd('pb.type', e.par(0)), E(n)) for n in ('MsgVote', 'MsgVoteResp', 'MsgPreVote', 'MsgPreVoteResp')]), ne(e.rd('pb.term', e.par(0)), ZERO_)),
                   and_(or_(*[eq(e.rd('pb.type', e.par(0)), E(n)) for n in ('MsgProp', 'MsgReadIndex')]), eq(e.rd('pb.term', e.par(0)), ZERO_)),
                   eq(e.rd('pb.term', e.par(0)), e.rd('Raft::term_'))), writes='Raft::msgs_', closed=False)
site('C22', 'nothing but Send queues a message', 'Raft::Send Raft::ClearMsgs', lambda e: TRUE, writes='Raft::msgs_')
rows('C23', 'a proposal without a leader is refused', 'Raft::StepFollower',
     lambda p: implies(and_(eq(p.pre('pb.type', p.par(0)), E('MsgProp')), or_(eq(p.pre('Raft::lead_'), ZERO_), p.pre('Raft::disable_proposal_forwarding_'))), ne(p.ret, NULL) if p.ret is not None else FALSE))
rows('C23', 'a candidate refuses proposals', 'Raft::StepCandidate', lambda p: implies(eq(p.pre('pb.type', p.par(0)), E('MsgProp')), ne(p.ret, NULL)) if not p.fatal else TRUE)
rows('C23', 'a proposal refused by the quota is reported', 'Raft::StepLeader',
     lambda p: TRUE if p.fatal else [implies(neg(ret(c)), ne(p.ret, NULL)) for c in calls_in(p.st, 'Raft::AppendEntry')])
rows('C24', 'refusing a proposal leaves the quota as it was', 'Raft::IncreaseUncommittedSize', lambda p: or_(p.ret, eq(p.rd('Raft::uncommitted_size_'), p.pre('Raft::uncommitted_size_'))))
rows('C24', 'an empty quota accepts anything', 'Raft::IncreaseUncommittedSize', lambda p: implies(le(p.pre('Raft::uncommitted_size_'), ZERO_), p.ret))
rows('C24', 'applying entries only frees quota', 'Raft::ReduceUncommittedSize', lambda p: le(p.rd('Raft::uncommitted_size_'), p.pre('Raft::uncommitted_size_')))
site('C25', 'an election starts only when the node may lead and its timeout has passed', 'Raft::TickElection',
     lambda e: and_(any_(e.st, 'Raft::Promotable', ret), any_(e.st, 'Raft::PastElectionTimeout', ret), eq(e.rd('pb.type', e.arg(0)), E('MsgHup')), eq(e.rd('Raft::election_elapsed_'), ZERO_)),
     calls='Raft::Step', closed=False)
rows('C25', 'the timeout has passed when the elapsed ticks reach the randomized one', 'Raft::PastElectionTimeout',
     lambda p: [implies(p.ret, ge(p.pre('Raft::election_elapsed_'), p.pre('Raft::randomized_election_timeout_'))), implies(ge(p.pre('Raft::election_elapsed_'), p.pre('Raft::randomized_election_timeout_')), p.ret)])
site('C25', 'a leader heartbeats when its heartbeat timeout is reached', 'Raft::TickHeartbeat',
     lambda e: or_(and_(eq(e.rd('pb.type', e.arg(0)), E('MsgBeat')), eq(e.rd('Raft::heartbeat_elapsed_'), ZERO_), eq(e.rd('Raft::state_'), E('kLeader'))),
                   and_(eq(e.rd('pb.type', e.arg(0)), E('MsgCheckQuorum')), eq(e.rd('Raft::election_elapsed_'), ZERO_), T0(e, 'Raft::check_quorum_'))), calls='Raft::Step', closed=False)

# ------------------------------------------------------------------ C27, C28, C29
rows('C27', 'a hard state outside the log is refused', 'Raft::LoadState',
     lambda p: TRUE if p.fatal else and_(ge(p.pre('pb.commit', p.par(0)), mk('init', mk('f', p.pre('Raft::raft_log_'), 'RaftLog::committed_'))),
                                         any_(p.st, 'RaftLog::LastIndex', lambda c: le(p.pre('pb.commit', p.par(0)), ret(c)))))
site('C27', 'bootstrapping needs an empty storage and at least one peer', 'RawNode::Bootstrap', lambda e: TRUE if _storage_empty(e) else FALSE, calls='RaftLog::Append', closed=False)
rows('C28', 'learners, outsiders and nodes installing a snapshot may not campaign', 'Raft::Promotable',
     lambda p: implies(p.ret, and_(*([neg(mk('init', mk('f', b, 'Progress::is_learner_'))) for b in _objs(p, 'Progress::is_learner_')] or [FALSE]))))
site('C28', 'only a promotable node that is not leader campaigns', 'Raft::Hup',
     lambda e: and_(ne(e.rd('Raft::state_'), E('kLeader')), any_(e.st, 'Raft::Promotable', ret)), calls='Raft::Campaign', closed=False)
site('C28', 'leadership is not transferred to a learner', 'Raft::StepLeader',
     lambda e: or_(eq(e.val, ZERO_), *[neg(mk('init', mk('f', b, 'Progress::is_learner_'))) for b in bases(e, 'Progress::is_learner_')]), writes='Raft::lead_transferee_', closed=False)
site('C29', 'a heartbeat never commits past what the follower acknowledged, nor past the own commit', 'Raft::SendHeartbeat',
     lambda e: and_(le(S_(e, 'commit'), LOG(e, 'committed_')), _lematch(e)), calls='Raft::Send', closed=False)
site('C29', 'a heartbeat answer repeats its context', 'Raft::HandleHearbeat',
     lambda e: and_(eq(S_(e, 'type'), E('MsgHeartbeatResp')), eq(S_(e, 'to'), e.msg('from')), eq(S_(e, 'context'), e.msg('context'))), calls='Raft::Send', closed=False)

# ------------------------------------------------------------------ C20, C21
rows('C20', 'an outdated snapshot is refused and nothing changes', 'MemoryStorage::ApplySnapshot MemoryStorage::Compact MemoryStorage::CreateSnapshot',
     lambda p: TRUE if only(p) else TRUE if p.fatal or p.ret is None else _ok(p))
rows('C20', 'compaction moves forward only and stays within the log', 'MemoryStorage::Compact', lambda p: implies(eq(p.ret, NULL), gt(p.par(0), _first(p))) if not p.fatal else TRUE)
rows('C20', 'a term is reported only inside the stored log', 'MemoryStorage::Term',
     lambda p: TRUE if p.fatal else implies(eq(_tup(p, '1'), NULL), ge(p.par(0), _first(p))))
rows('C21', 'stabilising never goes past what was handed out, of another term or before the offset', 'Unstable::StableTo',
     lambda p: ge(p.rd('Unstable::offset_'), p.pre('Unstable::offset_')))

# ------------------------------------------------------------------ C37, C38, C41
site('C37', 'local messages never come from the network, answers only from known peers', 'RawNode::Step',
     lambda e: and_(*[ne(e.msg('type'), E(n)) for n in ('MsgHup', 'MsgBeat', 'MsgUnreachable', 'MsgSnapStatus', 'MsgCheckQuorum')]), calls='Raft::Step', closed=False)
rows('C38', 'whoever moves the commit index forward broadcasts it', 'Raft::StepLeader Raft::SwitchToConfig',
     lambda p: TRUE if p.fatal else [implies(ret(c), TRUE if _then(p, 'Raft::msgs_', 'Raft::BcastAppend') else FALSE) for c in calls_in(p.st, 'Raft::MaybeCommit')])
rows('C41', 'the reported status is the state at the time', 'RawNode::GetBasicStatus', lambda p: _status(p))

# ------------------------------------------------------------------ C18, C19, C26
rows('C18', 'a membership is returned only after its invariants were checked', 'Changer::CheckAndReturn',
     lambda p: [eq(_tup(p, '2'), ret(c)) if _tup(p, '2') is not NULL else eq(NULL, ret(c)) for c in calls_in(p.st, 'Changer::CheckInvariants')] or FALSE)
rows('C18', 'a change succeeds only through the checked result', 'Changer::Simple Changer::EnterJoint Changer::LeaveJoint',
     lambda p: TRUE if p.fatal else implies(eq(_tup(p, '2'), NULL), TRUE if calls_in(p.st, 'Changer::CheckAndReturn', p.ret) else FALSE))
rows('C18', 'a simple change alters one voter at most', 'Changer::Simple',
     lambda p: TRUE if p.fatal or not calls_in(p.st, 'Changer::CheckAndReturn', p.ret) else any_(p.st, 'Changer::Symdiff', lambda c: le(ret(c), intc(1))))
rows('C18', 'joint consensus is entered only from a non-joint membership with voters, left only from a joint one', 'Changer::EnterJoint Changer::LeaveJoint',
     lambda p: TRUE if p.fatal or not calls_in(p.st, 'Changer::CheckAndReturn', p.ret) else _jointness(p))
rows('C19', 'a joint decision is won only when both halves won', 'JointConfig::VoteResult',
     lambda p: implies(eq(p.ret, E('kVoteWon')), and_(*[eq(ret(c), E('kVoteWon')) for c in calls_in(p.st, 'MajorityConfig::VoteResult', p.ret)])) if len(calls_in(p.st, 'MajorityConfig::VoteResult', p.ret)) == 2 else FALSE)
rows('C19', 'a joint decision is lost as soon as one half is', 'JointConfig::VoteResult',
     lambda p: implies(or_(*[eq(ret(c), E('kVoteLost')) for c in calls_in(p.st, 'MajorityConfig::VoteResult', p.ret)]), eq(p.ret, E('kVoteLost'))))
rows('C19', 'a joint commit index is the smaller half\'s', 'JointConfig::CommittedIndex',
     lambda p: and_(*[le(p.ret, ret(c)) for c in calls_in(p.st, 'MajorityConfig::CommittedIndex', p.ret)]) if len(calls_in(p.st, 'MajorityConfig::CommittedIndex', p.ret)) == 2 else FALSE)
rows('C19', 'an empty half never blocks a decision', 'MajorityConfig::VoteResult',
     lambda p: implies(eq(len_(p.pre('MajorityConfig::config_')), ZERO_), eq(p.ret, E('kVoteWon'))))
rows('C26', 'an accepted configuration satisfies every documented condition', 'Raft::Config::Validate',
     lambda p: implies(eq(p.ret, NULL), and_(
         ne(p.pre('Raft::Config::id'), ZERO_), gt(p.pre('Raft::Config::heartbeat_tick'), ZERO_), gt(p.pre('Raft::Config::election_tick'), p.pre('Raft::Config::heartbeat_tick')),
         ne(p.pre('Raft::Config::storage'), NULL), gt(p.pre('Raft::Config::max_inflight_msgs'), ZERO_), ne(p.rd('Raft::Config::max_uncommitted_entries_size'), ZERO_),
         or_(ne(p.rd('Raft::Config::max_committed_size_per_ready'), ZERO_), eq(p.pre('Raft::Config::max_size_per_msg'), ZERO_)),
         implies(eq(p.pre('Raft::Config::read_only_option'), E('kLeaseBased')), p.pre('Raft::Config::check_quorum')))))
rows('C26', 'a configuration that satisfies the conditions is accepted', 'Raft::Config::Validate',
     lambda p: or_(eq(p.ret, NULL), eq(p.pre('Raft::Config::id'), ZERO_), le(p.pre('Raft::Config::heartbeat_tick'), ZERO_), le(p.pre('Raft::Config::election_tick'), p.pre('Raft::Config::heartbeat_tick')),
                   eq(p.pre('Raft::Config::storage'), NULL), le(p.pre('Raft::Config::max_inflight_msgs'), ZERO_),
                   and_(eq(p.pre('Raft::Config::read_only_option'), E('kLeaseBased')), neg(p.pre('Raft::Config::check_quorum')))))

# ------------------------------------------------------------------ C32, C34
rows('C32', 'an error of the range check or of the storage reaches the caller of Slice', 'RaftLog::Slice',
     lambda p: TRUE if p.fatal else [implies(ne(x, NULL), ne(_tup(p, '1'), NULL)) for x in [ret(c) for c in calls_in(p.st, 'RaftLog::MustCheckOutOfBounds')] + [sel(c, '.1') for c in calls_in(p.st, 'Storage::Entries')]])
rows('C32', 'an error of the storage reaches the caller of Term', 'RaftLog::Term',
     lambda p: TRUE if p.fatal else [implies(ne(sel(c, '.1'), NULL), ne(_tup(p, '1'), NULL)) for c in calls_in(p.st, 'Storage::Term')])
rows('C32', 'a step\'s error reaches the caller', 'Raft::Step',
     lambda p: TRUE if p.fatal else [iff(eq(p.ret, NULL), eq(ret(c), NULL)) for c in calls_in(p.st, 'fnval', p.ret)])
rows('C34', 'a read from stable storage cut short by the size limit is not continued from the unstable tail', 'RaftLog::Slice',
     lambda p: TRUE if p.fatal else [implies(and_(lt(len_(sel(c, '.0')), sub(p.par(1), p.par(0))), lt(len_(sel(c, '.0')), sub(p.pre('Unstable::offset_', mk('f', THIS, 'RaftLog::unstable_')), p.par(0)))),
                                             TRUE if not calls_in(p.st, 'Unstable::Slice', p.ret) else FALSE) for c in calls_in(p.st, 'Storage::Entries', p.ret)])

# ------------------------------------------------------------------ C39
#   representation invariants, each established where the value is made (noted), used by the functions that rely on it
GIVEN = {
    'Progress::MaybeDecrTo': 'next_ >= 1 (every write of next_ is match+1, n+1, a maximum with 1, or the log\'s last index of a leader, whose own empty entry makes it at least 1)',
    'Raft::MaybeSendAppend': 'next_ >= 1', 'Raft::StepLeader': 'next_ >= 1', 'Raft::Restore': 'next_ >= 1',
    'RaftLog::Append': 'entries are numbered from 1 (AppendEntry, and the leader\'s messages)',
    'RaftLog::MaybeAppend': 'FindConflict returns 0 or the index of an entry of the message, which follow m.index',
    'RaftLog::MustCheckOutOfBounds': 'FirstIndex() <= LastIndex() + 1 (Storage contract)', 'RaftLog::Term': 'FirstIndex() >= 1 (Storage contract)',
    'RaftLog::RaftLog': 'FirstIndex() >= 1 (Storage contract)', 'RaftLog::NewWithSize': 'FirstIndex() >= 1 (Storage contract)',
    'RaftLog::Slice': 'lo <= hi (MustCheckOutOfBounds aborts otherwise)', 'Unstable::Slice': 'offset <= lo <= hi (MustCheckOutOfBounds aborts otherwise)',
    'MemoryStorage::Entries': 'lo <= hi (caller)', 'MemoryStorage::Append': 'the appended entries are numbered consecutively',
    'MajorityConfig::CommittedIndex': 'the write position counts at most one step per voter', 'Util::Split': 'string searches return positions at or after their start',
    'Util::Trim': 'a non-blank character exists', }
site('C39', 'no index computation wraps and no element access leaves its container', '*', lambda e: _inrange(e), writes='$sub $index', closed=False, given=GIVEN)


def _inrange(e):
    F = e.st.facts
    if e.kind == 'sub':
        return le(F.canon(e.y), F.canon(e.x))
    return lt(F.canon(e.idx), len_(F.canon(e.cont)))
