"""The properties: text (properties.jsonl is generated from here), anchors, and the part of the code
each one is decided on.

scope entry: 'Class::Func' or 'Class::*', optionally followed by
  [Msg…,Msg…]   only cases in which the stepped message can have one of these types
  {field,…}     only differences in these fields ('ret' the result, 'outcome' abort/return)
"""

P = {}


def prop(pid, title, statement, over, quant, why, scope, anchors, rules=(), state=(), note=''):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(id=pid, title=title, statement=' '.join(statement.split()), over=over.split(), quant=' '.join(quant.split()),
                  why=' '.join(why.split()), scope=scope.split(), anchors=anchors, rules=list(rules), state=state, note=note)


R = 'src/raft.cc'

prop('C01', 'At most one vote per term, and only for an up-to-date candidate',
     '''Within one term a node grants its vote to at most one candidate, and grants it only if it has not voted for another node
     and knows no leader in that term (or repeats the vote it already cast), and only if the candidate's last log entry has a higher term
     than its own, or the same term and an index at least as large. A granted vote is recorded before the response leaves, counts as election
     activity, and survives a restart through the hard state; a refusal carries the node's own term and changes nothing.''',
     'inputs histories', 'every node state (term, recorded vote, known leader, log) and every vote request, in every order of messages and restarts',
     '''The tests use a handful of fixed logs and one or two candidates; the rule must hold for every combination of recorded vote, leader,
     log tail and request, which is a product of unbounded integers.''',
     '''Raft::Step[MsgVote] RaftLog::IsUpToData RaftLog::LastTerm RaftLog::LastIndex RaftLog::Term Unstable::MaybeTerm Unstable::MaybeLastIndex
     Raft::Reset{Raft::vote_,Raft::term_} Raft::BecomeCandidate{Raft::vote_,Raft::term_} Raft::BecomeFollower{Raft::vote_,Raft::term_}
     Raft::BecomePreCandidate{Raft::vote_,Raft::term_} Raft::BecomeLeader{Raft::vote_,Raft::term_} Raft::LoadState{Raft::vote_,Raft::term_} Raft::GetHardState Raft::New{Raft::vote_,Raft::term_,ret}
     Raft::Send[MsgVote,MsgVoteResp] Util::VoteRespMsgType Raft::Campaign{Raft::vote_} Raft::Vote Raft::SetVote''',
     [(R, 'vote request handling in Step'), (R, 'Reset clears the vote only on a term change'), ('src/log.cc', 'IsUpToData')],
     rules=[])

prop('C02', 'The term never decreases and a message of a lower term has no effect',
     '''A node's term never decreases; it changes only when a message of a higher term arrives (not a pre-vote request, and not a granted
     pre-vote response) or when the node starts a real election, which adds exactly one. The recorded vote is cleared exactly when the term changes, and
     the node becomes a follower that knows a leader only if the higher-term message comes from one. A message of a lower term changes no state and, at most, is answered.''',
     'inputs histories', 'every message of every type and term in every node state, for the whole life of a node including restarts',
     'Tests step a few terms per message type; the rule is about all orders of all messages with arbitrary terms.',
     '''Raft::Step{Raft::term_,Raft::vote_,Raft::state_,Raft::lead_,Raft::msgs_,ret,outcome,Raft::election_elapsed_,Raft::step_} Raft::Reset{Raft::term_,Raft::vote_,Raft::lead_} Raft::BecomeFollower{Raft::term_,Raft::vote_,Raft::lead_,Raft::state_,Raft::step_,Raft::tick_}
     Raft::BecomeCandidate{Raft::term_,Raft::vote_,Raft::lead_,Raft::state_,outcome} Raft::BecomePreCandidate{Raft::term_,Raft::vote_,Raft::lead_,Raft::state_,outcome}
     Raft::BecomeLeader{Raft::term_,Raft::vote_,Raft::lead_,Raft::state_,outcome} Raft::StepCandidate{Raft::term_,Raft::vote_} Raft::StepFollower{Raft::term_,Raft::vote_}
     Raft::StepLeader{Raft::term_,Raft::vote_,Raft::state_} Raft::Campaign{Raft::term_} Raft::LoadState{Raft::term_,Raft::vote_} Raft::Restore{Raft::term_} Raft::GetHardState Raft::Term Raft::SetTerm''',
     [(R, 'term comparison at the head of Step'), (R, 'Reset'), (R, 'BecomeFollower, BecomeCandidate, BecomePreCandidate, BecomeLeader')],
     rules=[])

prop('C03', 'Leadership is taken only on votes of a quorum in the current election',
     '''A node becomes leader only from candidacy and only after a majority of the voters (a majority of both halves while the membership is joint) granted
     it their vote in this term; each voter counts once and its first answer stands, votes of non-members and learners do not count, and tallies start empty in each new election. A lost tally sends it back to follower in the same term,
     and answers to a pre-vote never count as votes nor the reverse.''',
     'inputs histories configurations', 'every sequence of vote answers, duplicates and stale answers, for every voter configuration including joint ones',
     'Tests enumerate small fixed vote sequences; duplicated, late and outsider answers combine without bound.',
     '''Raft::StepCandidate[MsgVoteResp,MsgPreVoteResp] Raft::Poll Raft::Campaign Raft::BecomeLeader Raft::BecomeCandidate Raft::BecomePreCandidate Raft::Hup Raft::Reset{ProgressTracker::votes_}
     ProgressTracker::RecordVote ProgressTracker::TallyVotes ProgressTracker::ResetVotes ProgressTracker::VoterNodes JointConfig::VoteResult MajorityConfig::VoteResult Util::VoteRespMsgType JointConfig::IDs MajorityConfig::IDs''',
     [(R, 'Campaign, Poll, StepCandidate'), ('src/tracker/tracker.cc', 'RecordVote, TallyVotes'), ('src/quorum/majority.cc', 'VoteResult')], rules=[])

prop('C04', 'A leader commits only entries of its own term that a quorum holds',
     '''A leader advances its commit index only to the largest index acknowledged by a quorum (of both halves while joint), only if the entry there
     was created in its current term, and never past its own last entry; everyone's commit index only grows. Progress of a follower counts only as far as that follower acknowledged it.''',
     'inputs histories configurations', 'every assignment of acknowledged indexes, every log and every configuration',
     'Tests check a few match vectors; the rule ranges over all match vectors, terms and configurations.',
     '''Raft::MaybeCommit RaftLog::MaybeCommit RaftLog::CommitTo RaftLog::Term RaftLog::ZeroTermOnErrCompacted RaftLog::SetCommitted ProgressTracker::Committed MatchAckIndexer::* MajorityConfig::CommittedIndex JointConfig::CommittedIndex
     Raft::StepLeader[MsgAppResp]{RaftLog::committed_,Progress::match_} Raft::AppendEntry{RaftLog::committed_,Progress::match_} Progress::MaybeUpdate insertionSort MajorityConfig::Slice Raft::SwitchToConfig{RaftLog::committed_} RaftLog::Committed Raft::CommittedEntryinCurrentTerm Progress::Match''',
     [(R, 'MaybeCommit'), ('src/log.cc', 'MaybeCommit, CommitTo'), ('src/tracker/tracker.cc', 'Committed')], rules=[])

prop('C05', 'A follower accepts entries only where its log matches the leader',
     '''A follower takes over entries from an append request only if its log holds the preceding entry with the stated term; otherwise it rejects with a hint that lets the leader find the
     common prefix and never hints past its log. On acceptance it truncates only from the first conflicting entry on, never at or below its commit index, keeps entries that already match, sets
     commit to the smaller of the leader's commit and the last new index, and acknowledges exactly the last index it now shares; a request below its commit index is answered with the commit index.''',
     'inputs histories', 'every follower log, every append request (index, term, entries, commit), duplicated and reordered',
     'Tests use tables of a few logs of length at most five; overlap, conflict and commit combine without bound.',
     '''Raft::HandleAppendEntries RaftLog::MaybeAppend RaftLog::FindConflict RaftLog::FindConflictByTerm RaftLog::MatchTerm RaftLog::Append RaftLog::CommitTo RaftLog::Term RaftLog::LastIndex Unstable::TruncateAndAppend
     Raft::StepFollower[MsgApp] Raft::StepCandidate[MsgApp] Raft::Send[MsgAppResp] Util::MakeEntries RaftLog::ZeroTermOnErrCompacted''',
     [(R, 'HandleAppendEntries'), ('src/log.cc', 'MaybeAppend, FindConflict, FindConflictByTerm'), ('src/log_unstable.cc', 'TruncateAndAppend')], rules=[])

prop('C06', 'A leader numbers and stamps new entries consecutively and appends only',
     '''Entries a leader creates carry its current term and the indexes directly after its last entry, in proposal order; a leader never overwrites or deletes
     entries of its log. A new leader first appends one empty entry of its own term, and its own acknowledged index follows its log.''',
     'inputs histories', 'every proposal batch in every leader state',
     'Tests propose one or two entries; batches mixed with configuration entries, quota refusals and snapshots are unbounded.',
     '''Raft::AppendEntry Raft::BecomeLeader Raft::StepLeader[MsgProp] RaftLog::Append Unstable::TruncateAndAppend Util::MakeEntries RaftLog::LastIndex Progress::MaybeUpdate Raft::Advance{Unstable::entries_} Raft::Reset{ProgressTracker::progress_}''',
     [(R, 'AppendEntry'), (R, 'BecomeLeader'), ('src/log.cc', 'Append')], rules=[])

prop('C07', 'Entries are handed out for application in order, once, and only if committed',
     '''The entries offered for application are exactly those after the last applied index (and after the log's first index) up to the commit index, in order and limited in bytes but never empty when some exist;
     applied never exceeds committed, committed never exceeds the last index, and neither ever decreases. While a snapshot waits to be applied nothing after it counts as applied.''',
     'inputs histories crash_points', 'every interleaving of appends, commits, snapshots, readies and restarts',
     'Tests sample a few cursor positions; the cursors move under all interleavings of storage, snapshot and advance.',
     '''RaftLog::NextEnts RaftLog::HasNextEnts RaftLog::AppliedTo RaftLog::CommitTo RaftLog::SetApplied RaftLog::SetCommitted RaftLog::Applied RaftLog::NewWithSize RaftLog::RaftLog RaftLog::New RaftLog::Restore RaftLog::Slice Ready::AppliedCursor Raft::Advance{RaftLog::applied_,RaftLog::committed_,outcome}
     RaftLog::HasPendingSnapshot Raft::New{RaftLog::applied_,RaftLog::committed_,outcome} Raft::LoadState{RaftLog::committed_,outcome} NewReady{Ready::committed_entries,ret} Util::LimitSize RawNode::Advance''',
     [('src/log.cc', 'NextEnts, AppliedTo, CommitTo'), (R, 'Advance, Ready::AppliedCursor')], rules=[])

prop('C08', 'A ready batch reports everything pending, and acknowledging it loses nothing',
     '''A batch contains all unstable entries, the entries to apply, the pending snapshot, all queued messages and read results, and the soft and hard state exactly when they changed; it demands a synchronous write whenever
     entries, term or vote are to be persisted, and there is a batch exactly when one of these is pending. Taking a batch removes the messages and read results it contains and nothing else, and acknowledging it marks exactly its contents as stable and applied
     and its hard state as reported.''',
     'histories schedules', 'every sequence of steps, ticks, readies and acknowledgements, including steps between taking and acknowledging a batch',
     'Tests take a handful of batches in fixed situations; the contract must hold in every state and across every interleaving.',
     '''NewReady MustSync RawNode::GetReady RawNode::ReadyWithoutAccept RawNode::AcceptReady RawNode::HasReady RawNode::Advance RawNode::New RawNode::Start RawNode::ReStart RawNode::RawNode Raft::Advance Ready::AppliedCursor Raft::ClearMsgs Raft::ClearReadStates Raft::Msgs Raft::ReadAndClearMsgs Raft::GetReadStates
     Raft::GetSoftState Raft::GetHardState SoftState::operator== operator== IsEmptyHardState IsEmptySnap RaftLog::StableTo RaftLog::StableSnapTo RaftLog::UnstableEntries RaftLog::UnstableSnapshot RaftLog::HasNextEnts RaftLog::HasPendingSnapshot ReadState::operator==''',
     [('src/rawnode.cc', 'NewReady, HasReady, AcceptReady, Advance, MustSync'), (R, 'Advance')], rules=['defaults:SoftState'])

prop('C09', 'A snapshot is installed only by a member follower that is behind it',
     '''A node installs a received snapshot only if it is a follower, the snapshot is ahead of its commit index and names it as voter, learner or outgoing voter; if its log already contains the snapshot's last entry it only advances its commit index.
     Installing replaces the log, sets commit to the snapshot's index and rebuilds exactly the membership the snapshot describes; either way the sender is answered with the last index the node can vouch for.''',
     'inputs histories', 'every snapshot and node state, including stale, duplicated and foreign snapshots',
     'Tests restore three or four fixed snapshots; membership lists, log tails and roles vary without bound.',
     '''Raft::HandleSnapshot Raft::Restore RaftLog::Restore Unstable::Restore RaftLog::MatchTerm RaftLog::CommitTo RaftLog::SetCommitted Restore toConfChangeSingle chain Changer::* Raft::SwitchToConfig{ProgressTracker::,Raft::is_learner_,ret} ProgressTracker::ConfState RaftLog::LastIndex RaftLog::Snapshot
     Raft::StepFollower[MsgSnap] Raft::StepCandidate[MsgSnap] IsEmptySnap ProgressTracker::SetConfig ProgressTracker::SetProgressMap ProgressTracker::ProgressTracker RaftLog::HasPendingSnapshot Unstable::MaybeFirstIndex Unstable::MaybeLastIndex operator==''',
     [(R, 'HandleSnapshot, Restore'), ('src/confchange/restore.cc', 'Restore'), ('src/log.cc', 'Restore')], rules=[])

prop('C10', 'A lagging follower is sent a snapshot, and replication resumes after it',
     '''The leader sends its latest non-empty snapshot, and no append, to a recently active follower whose next entry or its predecessor's term is no longer available; it then sends that follower nothing more until it reports success or failure
     or acknowledges enough of the log. On success probing resumes directly after the snapshot or after the acknowledged index, whichever is larger; on failure from the acknowledged index.''',
     'inputs histories fault_sequences', 'every follower position, compaction point, storage answer and report order',
     'Tests fix one snapshot and a few reports; compaction, reports and acknowledgements can interleave arbitrarily.',
     '''Raft::MaybeSendAppend Raft::SendAppend Raft::StepLeader[MsgSnapStatus,MsgAppResp,MsgUnreachable]{Progress::,Inflights::,ProgressTracker::progress_,ret,outcome,Raft::msgs_} Progress::BecomeSnapshot Progress::BecomeProbe Progress::BecomeReplicate Progress::ResetState Progress::IsPaused Progress::MaybeUpdate Progress::SetPendingSnapshot Progress::PendingSnapshot RaftLog::Snapshot RawNode::ReportSnapshot IsEmptySnap RaftLog::Term RaftLog::Entries Progress::SetProbeSent Progress::RecentActive''',
     [(R, 'MaybeSendAppend; MsgSnapStatus in StepLeader'), ('src/tracker/progress.cc', 'BecomeSnapshot, BecomeProbe')], rules=[])

prop('C11', 'Flow control never exceeds the in-flight window and frees slots exactly',
     '''Each follower in streaming mode has at most the configured number of unacknowledged appends, kept in sending order; an acknowledgement frees exactly those whose last index it covers, a heartbeat answer frees one slot only when the window is full, and a paused follower is sent nothing.
     Probing sends at most one append between answers; returning to any mode empties the window. Window positions wrap correctly at every size and growth step.''',
     'inputs histories', 'every window size, fill level, ring position and acknowledgement order',
     'Tests use window sizes up to ten and a few wrap positions; sizes and positions are unbounded.',
     '''Inflights::* Progress::IsPaused Progress::ResetState Progress::BecomeProbe Progress::BecomeReplicate Progress::BecomeSnapshot Progress::Progress Progress::OptimisticUpdate Raft::MaybeSendAppend Raft::SendAppend
     Raft::StepLeader[MsgAppResp,MsgHeartbeatResp]{Inflights::,Progress::,Raft::msgs_,ProgressTracker::progress_,ret,outcome} Raft::Config::Validate Progress::Clone Progress::SetProbeSent Progress::ProbeSent Progress::MaybeDecrTo{Progress::probe_sent_} Progress::MaybeUpdate{Progress::probe_sent_} ProgressTracker::MaxInflight Progress::GetInflights Progress::SetInflights''',
     [('src/tracker/inflights.cc', 'Add, FreeLE, FreeFirstOne, Grow'), ('src/tracker/progress.cc', 'IsPaused'), (R, 'MaybeSendAppend')], rules=[])

prop('C12', 'The leader\'s view of a follower moves only on genuine answers',
     '''The acknowledged index of a follower never decreases while the leader leads, and its next index always stays above it; an acknowledgement raises both as needed and reports whether it was news. A rejection moves the next index back only if it answers the latest outstanding probe (or, when streaming, lies above the acknowledged index),
     to the smaller of the rejected index and one past the hint but never to zero; stale rejections are ignored, and a genuine one switches streaming to probing and resends.''',
     'inputs histories', 'every order, duplication and delay of acknowledgements and rejections',
     'Tests feed single answers; stale and duplicated answers combine without bound.',
     '''Progress::* Raft::StepLeader[MsgAppResp,MsgUnreachable] RaftLog::FindConflictByTerm Raft::Reset{ProgressTracker::progress_,Progress::} RawNode::ReportUnreachable Raft::BecomeLeader{Progress::,ProgressTracker::progress_}''',
     [('src/tracker/progress.cc', 'MaybeUpdate, MaybeDecrTo'), (R, 'MsgAppResp in StepLeader')], rules=[])

prop('C13', 'Read requests are answered with a commit index that is current',
     '''A leader answers a read request only once an entry of its own term is committed, with its commit index at the time the request was accepted, and in safe mode only after a quorum confirmed its leadership in a heartbeat round that carries that request's (or a later request's) token; requests are answered in order and
     each at most once, to the node that asked. In lease mode it answers at once; the only voter of a cluster also does; followers forward requests to the leader and return its answer with the original token; a new term forgets pending requests.''',
     'inputs histories schedules', 'every sequence of read requests and heartbeat answers, duplicated tokens and role changes',
     'Tests issue at most a few reads in fixed order; tokens, acknowledgements and leader changes interleave arbitrarily.',
     '''ReadOnly::* Raft::StepLeader[MsgReadIndex,MsgHeartbeatResp] Raft::StepLeader[MsgAppResp]{Raft::pending_read_index_messages_,Raft::read_states_,ReadOnly::} Raft::StepFollower[MsgReadIndex,MsgReadIndexResp] Raft::ResponseToReadIndexReq Raft::ReleasePendingReadIndexMessages Raft::SendMsgReadIndexResponse Raft::CommittedEntryinCurrentTerm
     RawNode::ReadIndex Raft::BcastHeartbeat Raft::BcastHeartbeatWithCtx Raft::SendHeartbeat Raft::HandleHearbeat{Raft::msgs_} Raft::Reset{Raft::read_only_} ProgressTracker::IsSingleton JointConfig::VoteResult MajorityConfig::VoteResult RaftLog::ZeroTermOnErrCompacted Raft::New{Raft::read_only_,ret} Raft::Send[MsgReadIndex,MsgReadIndexResp] Raft::ClearReadStates Raft::GetReadStates ReadState::operator==''',
     [(R, 'MsgReadIndex and MsgHeartbeatResp in StepLeader'), ('src/read_only.cc', 'AddRequest, RecvAck, Advance')], rules=[])

prop('C14', 'Pre-vote changes nothing until a quorum would grant the vote',
     '''With pre-vote on, an election starts with requests for the next term that change neither term nor vote, anywhere; a real election follows only after a quorum answered positively. A request is granted only if it is for a later term (or this node could vote for it anyway) and its log is up to date, the grant carries the requested term, a refusal the refuser's own;
     a refusal of a higher term makes the requester step down.''',
     'inputs histories', 'every node state and pre-vote message',
     'Tests walk a few scenarios; the no-effect clause is about every state.',
     '''Raft::Step[MsgPreVote,MsgPreVoteResp,MsgHup] Raft::BecomePreCandidate Raft::Campaign Raft::StepCandidate[MsgPreVoteResp] Raft::Send[MsgPreVote,MsgPreVoteResp] Util::VoteRespMsgType Raft::Hup Raft::New{Raft::pre_vote_,ret} Raft::SetPreVote''',
     [(R, 'MsgPreVote in Step'), (R, 'BecomePreCandidate, Campaign')], rules=[])

prop('C15', 'Check-quorum makes an isolated leader step down and shields a healthy one',
     '''With check-quorum on, a leader steps down at the end of any election timeout in which it did not hear from a quorum of voters, then starts counting afresh; a node that heard from a leader within the election timeout ignores vote and pre-vote requests of a higher term unless they come from a leadership transfer.
     With check-quorum or pre-vote on, an append or heartbeat of a lower term is answered so that the stale leader learns the term.''',
     'inputs histories schedules', 'every pattern of contact and ticks, every configuration',
     'Tests check one or two timeouts; contact patterns and message types combine without bound.',
     '''Raft::Step[MsgVote,MsgPreVote,MsgApp,MsgHeartbeat] Raft::StepLeader[MsgCheckQuorum] Raft::StepLeader[MsgAppResp,MsgHeartbeatResp]{Progress::recent_active_,ProgressTracker::progress_} Raft::TickHeartbeat ProgressTracker::QuorumActive Progress::RecentActive Progress::SetRecentActive JointConfig::VoteResult MajorityConfig::VoteResult ProgressTracker::Visit
     Raft::New{Raft::check_quorum_,ret} Raft::SetCheckQuorum Raft::StepFollower{Raft::election_elapsed_} Changer::InitProgress Raft::Reset{Progress::recent_active_,Raft::election_elapsed_,ProgressTracker::progress_} Raft::Config::Validate''',
     [(R, 'MsgCheckQuorum in StepLeader; lease check in Step'), ('src/tracker/tracker.cc', 'QuorumActive')], rules=[])

prop('C16', 'Leadership transfer is exclusive, bounded in time, and hands over a full log',
     '''A leader tells the chosen voter to campaign only when that voter's log equals its own, and until then sends it what is missing; while a transfer is pending it accepts no proposals, ignores a repeated request for the same target and replaces the target on a different one, and ignores learners, itself and unknown nodes.
     A pending transfer ends after one election timeout, on any role or term change, or when the target leaves the voters; the told node campaigns at once, without pre-vote and even against a lease.''',
     'inputs histories', 'every transfer request sequence, target state and timing',
     'Tests cover single transfers; overlapping requests, membership changes and timeouts interleave arbitrarily.',
     '''Raft::StepLeader[MsgTransferLeader] Raft::StepLeader[MsgProp]{ret,Raft::lead_transferee_,RaftLog::,Unstable::} Raft::StepLeader[MsgAppResp]{Raft::msgs_,Raft::lead_transferee_} Raft::StepFollower[MsgTransferLeader,MsgTimeoutNow] Raft::StepCandidate[MsgTimeoutNow] Raft::SendTimeoutNow Raft::AbortLeaderTransfer Raft::TickHeartbeat Raft::Reset{Raft::lead_transferee_}
     Raft::SwitchToConfig{Raft::lead_transferee_} RawNode::TransferLeader Raft::Step[MsgVote,MsgPreVote] Raft::Campaign CampaignTypeName Raft::LeadTransferee Raft::Hup''',
     [(R, 'MsgTransferLeader in StepLeader, TickHeartbeat, SwitchToConfig')], rules=[])

prop('C17', 'At most one membership change is in flight, and it is applied only once legal',
     '''A leader lets at most one unapplied membership change into its log; further ones, a change other than leaving while joint, and leaving while not joint are turned into empty entries that keep their position. A new leader treats its whole unapplied log as possibly containing one, no node campaigns while it has a committed unapplied change,
     and a joint membership entered with automatic leave is left by exactly one proposal of the leader once the change that entered it is applied.''',
     'inputs histories', 'every mixture of entries in proposals, apply progress and membership state',
     'Tests propose one change at a time; batches, pending indexes and apply progress vary without bound.',
     '''Raft::StepLeader[MsgProp] Raft::Hup Raft::NumOfPendingConf Raft::Advance Raft::BecomeLeader{Raft::pending_conf_index_} Raft::Reset{Raft::pending_conf_index_} RawNode::ProposeConfChange ConfChangeToMsg Raft::ApplyConfChange RawNode::ApplyConfChange ConfChangeI::* EnterJoint LeaveJoint Raft::PendingConfIndex JointConfig::At MajorityConfig::Size Raft::AppendEntry''',
     [(R, 'MsgProp in StepLeader; Hup; Advance')], rules=[])

prop('C18', 'Applying a membership change yields exactly the described legal membership',
     '''A simple change alters at most one voter and is refused while joint; entering joint consensus copies the voters to the outgoing half and is refused when already joint or without voters; leaving makes staged learners learners and drops nodes in neither half. No node is both voter and learner, every member and only members have progress,
     an existing member keeps its progress, a node still voting in the outgoing half that is demoted becomes learner only on leaving, all voters are never removed, and an invalid change leaves the current membership untouched.''',
     'inputs configurations histories', 'every membership and every list of changes',
     'The repository\'s random tests sample short change lists; the invariants range over all memberships and lists.',
     '''Changer::* Restore chain toConfChangeSingle Raft::ApplyConfChange Raft::SwitchToConfig EnterJoint LeaveJoint ProgressTracker::ConfState ProgressTracker::Config::operator== ProgressTracker::Config::Joint ProgressTracker::SetConfig ProgressTracker::SetProgressMap ProgressTracker::GetConfig ProgressTracker::GetProgressMap ProgressTracker::Config::String operator== err MajorityConfig::Add MajorityConfig::Remove MajorityConfig::Exist MajorityConfig::Reset MajorityConfig::MajorityConfig JointConfig::JointConfig JointConfig::Incoming JointConfig::Outgoing JointConfig::At MajorityConfig::Size''',
     [('src/confchange/confchange.cc', 'Changer'), ('src/confchange/restore.cc', 'Restore')], rules=['defaults:ProgressTracker::Config'])

prop('C19', 'Quorum arithmetic is exact for every majority and joint configuration',
     '''The committed index of a majority configuration is the largest index that more than half of its voters acknowledged, unbounded when there are no voters; a vote is won exactly when more than half said yes, lost exactly when a majority of yes is no longer possible, and pending otherwise, with the empty configuration always winning.
     A joint configuration commits the smaller of its halves' indexes, wins only if both win, and loses if either loses; unknown voters count as not acknowledged and not voted.''',
     'inputs configurations', 'every voter set size, acknowledgement map and vote map',
     'The existing data-driven and random tests sample small sets; the arithmetic must hold for all sizes.',
     '''MajorityConfig::* JointConfig::* insertionSort MapAckIndexer::* MatchAckIndexer::* ProgressTracker::Committed ProgressTracker::QuorumActive ProgressTracker::TallyVotes ProgressTracker::IsSingleton''',
     [('src/quorum/majority.cc', 'CommittedIndex, VoteResult'), ('src/quorum/joint.cc', 'CommittedIndex, VoteResult')], rules=[])

prop('C20', 'The in-memory storage answers exactly from its log and is safe to share',
     '''The in-memory storage returns exactly the entries of the requested range (limited in bytes, at least one), terms for every index from the snapshot's to the last, and tells compacted from not-yet-available indexes apart; appending overwrites from the first given index on, ignores what is compacted and refuses gaps, compaction keeps the entry compacted to as
     a placeholder, and an older snapshot never replaces a newer one. Every access to its shared state happens under its lock, exclusive for changes, taken once per call.''',
     'inputs histories schedules', 'every sequence of calls and every interleaving of callers',
     'Tests use logs of three to six entries from one thread; offsets and interleavings are unbounded.',
     '''MemoryStorage::* Util::LimitSize IsEmptySnap''',
     [('src/storage.cc', 'MemoryStorage'), ('src/storage.h', 'MemoryStorage')], rules=['locks'])

prop('C21', 'The unstable part of the log is exactly what is not yet persisted',
     '''Appending to the unstable log at its end extends it, at or before its start replaces it and moves the start back, in between keeps the prefix and replaces the rest; acknowledging persistence removes exactly the entries up to an index, and only if the term there matches; a pending snapshot disappears only when acknowledged with its own index.
     Term and bounds queries answer from it exactly where it is authoritative, and the combined log reads persisted entries up to its start and unstable ones from there.''',
     'inputs histories', 'every log content, append, acknowledgement and snapshot order',
     'Tests use unstable logs of one to three entries; overlaps are unbounded.',
     '''Unstable::* RaftLog::StableTo RaftLog::StableSnapTo RaftLog::Append RaftLog::Slice RaftLog::Entries RaftLog::AllEntries RaftLog::Term RaftLog::FirstIndex RaftLog::LastIndex RaftLog::LastTerm RaftLog::UnstableEntries RaftLog::UnstableSnapshot RaftLog::Snapshot RaftLog::MustCheckOutOfBounds RaftLog::Restore RaftLog::HasPendingSnapshot RaftLog::RaftLog RaftLog::NewWithSize RaftLog::GetUnstable''',
     [('src/log_unstable.cc', 'Unstable'), ('src/log.cc', 'Slice, Term')], rules=[])

prop('C22', 'Every message leaves with the right sender, recipient and term',
     '''Every queued message carries this node as sender unless it already names one; election requests and answers keep the non-zero term their sender chose, all other messages must have none and get the current term, except forwarded proposals and read requests which stay without one; violating either aborts. Messages leave in the order they were created, answers go to the node asked by,
     and broadcasts reach every other member exactly once and never the node itself.''',
     'inputs histories', 'every message of every type the node can emit in every state',
     'Tests look at a few messages; the rule covers every send site.',
     '''Raft::Send Raft::BcastAppend Raft::BcastHeartbeat Raft::BcastHeartbeatWithCtx Raft::SendAppend Raft::SendHeartbeat Raft::SendTimeoutNow Raft::MaybeSendAppend{Raft::msgs_,ret,outcome} Raft::Campaign{Raft::msgs_} Raft::HandleAppendEntries{Raft::msgs_} Raft::HandleHearbeat{Raft::msgs_} Raft::HandleSnapshot{Raft::msgs_} Raft::Step{Raft::msgs_}
     Raft::StepFollower{Raft::msgs_} Raft::StepLeader{Raft::msgs_} Raft::StepCandidate{Raft::msgs_} Raft::ResponseToReadIndexReq{ret} Raft::ClearMsgs Raft::ReadAndClearMsgs Raft::Msgs ProgressTracker::Visit ProgressTracker::VoterNodes Raft::SendMsgReadIndexResponse Util::VoteRespMsgType RawNode::AcceptReady NewReady{Ready::messages,ret} Raft::SwitchToConfig{Raft::msgs_}''',
     [(R, 'Send and its callers')], rules=[])

prop('C23', 'A proposal is appended, forwarded once, or refused with an error',
     '''A leader that is a member and not transferring appends a proposal's entries to its log and replicates them, a follower that knows the leader forwards the proposal unchanged unless forwarding is disabled, and in every other case the caller gets the dropped-proposal error and nothing changes. A proposal that would exceed the uncommitted quota is refused the same way,
     an empty proposal to a leader aborts.''',
     'inputs histories', 'every proposal in every role and configuration',
     'Tests try each role with one entry; membership, transfer, quota and forwarding switches combine.',
     '''Raft::StepLeader[MsgProp] Raft::StepFollower[MsgProp] Raft::StepCandidate[MsgProp] Raft::AppendEntry RawNode::Propose RawNode::ProposeConfChange ConfChangeToMsg Raft::Step[MsgProp] Raft::Send[MsgProp] Util::MakeEntries Raft::BcastAppend Raft::IncreaseUncommittedSize Raft::New{Raft::disable_proposal_forwarding_,ret} Raft::Advance{outcome}''',
     [(R, 'MsgProp in StepLeader, StepFollower, StepCandidate')], rules=[])

prop('C24', 'The uncommitted-bytes quota admits and releases exactly the payload bytes',
     '''A leader refuses a proposal exactly when the uncommitted payload bytes are non-zero, the proposal has payload, and their sum exceeds the limit; accepted payload is added, payload handed out as committed is subtracted without going below zero, each new term starts at zero, and empty entries are never refused and cost nothing. Followers do not account.''',
     'inputs histories', 'every payload size, limit and apply order',
     'Tests use one limit and equal sizes; sums, saturation and ordering need all values.',
     '''Raft::IncreaseUncommittedSize Raft::ReduceUncommittedSize Util::PayloadSize Raft::AppendEntry Raft::Advance{Raft::uncommitted_size_} Raft::BecomeLeader{Raft::uncommitted_size_,outcome} Raft::Reset{Raft::uncommitted_size_} Raft::New{Raft::max_uncommitted_size_,ret} Raft::Config::Validate Raft::UncommittedSize Raft::StepLeader[MsgProp]{Raft::uncommitted_size_,ret}''',
     [(R, 'IncreaseUncommittedSize, ReduceUncommittedSize, AppendEntry')], rules=[])

prop('C25', 'Logical time drives elections and heartbeats at the configured distances',
     '''A follower or candidate that may lead campaigns when the ticks since it last heard from a leader, granted a vote or campaigned reach a timeout drawn anew at every term or role change uniformly between the election timeout and twice it minus one; a leader sends heartbeats every heartbeat timeout and checks its quorum every election timeout.
     A node that cannot be leader never campaigns on its own, and counters restart exactly at these events.''',
     'inputs histories configurations', 'every tick count and every timeout configuration, including large ones',
     'Tests use small timeouts and sampled randomness; the bounds must hold for all values and draws.',
     '''Raft::TickElection Raft::TickHeartbeat Raft::PastElectionTimeout Raft::ResetRandomizedElectionTimeout Util::Random Raft::Reset{Raft::election_elapsed_,Raft::heartbeat_elapsed_,Raft::randomized_election_timeout_} Raft::Tick Raft::TickQuiesced RawNode::Tick RawNode::TickQuiesced Raft::StepFollower{Raft::election_elapsed_} Raft::BecomeFollower{Raft::tick_,Raft::election_elapsed_} Raft::BecomeCandidate{Raft::tick_} Raft::BecomePreCandidate{Raft::tick_} Raft::BecomeLeader{Raft::tick_}
     Raft::Step[MsgVote]{Raft::election_elapsed_} Raft::StepLeader[MsgTransferLeader]{Raft::election_elapsed_} Raft::StepLeader[MsgBeat] Raft::Promotable Raft::New{Raft::election_timeout_,Raft::heartbeat_timeout_,ret} Raft::BcastHeartbeat Raft::HeartbeatTimeout Raft::ElectionTimeout Raft::SetRandomizedElectionTimeout Raft::SetHeartbeatTimeout Raft::SetElectionElapsed''',
     [(R, 'TickElection, TickHeartbeat, ResetRandomizedElectionTimeout'), ('src/util.cc', 'Random')], rules=[])

prop('C26', 'An invalid configuration is refused and a valid one is taken over unchanged',
     '''Creating a node is refused (aborts) for a zero id, a non-positive heartbeat interval, an election timeout not larger than it, a missing storage, a non-positive in-flight limit, and lease-based reads without check-quorum; zero values of optional limits get their documented defaults. Every option of a valid configuration takes effect as given.''',
     'configurations', 'every combination of option values',
     'Tests construct nodes from a few configurations; every option and boundary value matters.',
     '''Raft::Config::Validate Raft::New Raft::Raft RawNode::New RawNode::Start RawNode::ReStart RaftLog::NewWithSize RaftLog::New RaftLog::RaftLog ReadOnly::ReadOnly ProgressTracker::ProgressTracker Raft::ID''',
     [(R, 'Config::Validate, New')], rules=['defaults:Raft::Config'])

prop('C27', 'A restarted or bootstrapped node starts from exactly its persisted state',
     '''A restarted node is a follower with the persisted term, vote and commit index, the membership stored with its log, the given applied index and no memory beyond that; a commit index outside its log aborts. Bootstrapping needs an empty storage and at least one peer and produces one committed membership entry of term one per peer, in order, all visible to the application, without marking them applied.''',
     'inputs crash_points histories', 'every persisted state and peer list, every crash point between writes',
     'Tests restart from a few states; persisted states vary without bound.',
     '''Raft::New Raft::Raft Raft::LoadState RawNode::Bootstrap RawNode::New RawNode::Start RawNode::ReStart RawNode::RawNode Restore toConfChangeSingle IsEmptyHardState RaftLog::NewWithSize RaftLog::RaftLog Raft::SwitchToConfig{ProgressTracker::,ret} MemoryStorage::InitialState Raft::BecomeFollower MemoryStorage::FirstIndex MemoryStorage::LastIndex operator==''',
     [(R, 'New, LoadState'), ('src/rawnode.cc', 'Bootstrap')], rules=[])

prop('C28', 'Learners receive the log but never vote, count or lead',
     '''A learner is replicated to like any member but is never counted towards commit, votes, check-quorum or read confirmation, never campaigns, and is never the target of a transfer; a node knows from the applied membership whether it is a learner, and one with a pending snapshot does not campaign either.''',
     'inputs configurations histories', 'every membership with learners and staged learners',
     'Tests use one learner; staged learners and promotions vary.',
     '''Raft::Promotable Raft::Hup Raft::SwitchToConfig{Raft::is_learner_} Raft::StepLeader[MsgTransferLeader] Changer::MakeVoter Changer::MakeLearner Changer::InitProgress Changer::Remove Changer::LeaveJoint ProgressTracker::QuorumActive ProgressTracker::Committed ProgressTracker::TallyVotes ProgressTracker::VoterNodes ProgressTracker::LearnerNodes ProgressTracker::IsSingleton Progress::IsLearner Progress::SetIsLearner
     Raft::Reset{ProgressTracker::progress_,Progress::is_learner_} Raft::TickElection Raft::Campaign Raft::BcastAppend Raft::BcastHeartbeatWithCtx MatchAckIndexer::AckedIndex MajorityConfig::CommittedIndex MajorityConfig::VoteResult Raft::IsLearner Progress::Progress''',
     [(R, 'Promotable, SwitchToConfig'), ('src/tracker/tracker.cc', 'QuorumActive, TallyVotes')], rules=[])

prop('C29', 'Heartbeats carry only a commit index the receiver is known to hold',
     '''A heartbeat's commit index is the smaller of what its receiver acknowledged and the leader's commit index; the receiver commits up to exactly that index without truncating its log (an index beyond its log aborts), and answers with the same token. Heartbeats go to every other member in every round, whatever its replication state.''',
     'inputs histories', 'every acknowledged and committed index pair and every member',
     'Tests check two members; the rule is about all index pairs.',
     '''Raft::SendHeartbeat Raft::BcastHeartbeat Raft::BcastHeartbeatWithCtx Raft::HandleHearbeat RaftLog::CommitTo Raft::StepFollower[MsgHeartbeat] Raft::StepCandidate[MsgHeartbeat] Raft::StepLeader[MsgBeat,MsgHeartbeatResp] Raft::StepLeader[MsgReadIndex]{Raft::msgs_} Raft::SendMsgReadIndexResponse ReadOnly::LastPendingRequestCtx Progress::Match''',
     [(R, 'SendHeartbeat, HandleHearbeat')], rules=[])

prop('C30', 'What the library hands out or takes in is not changed behind the owner\'s back',
     '''Data handed to the application (status, progress copies, batches, snapshots, message contents, storage reads) is a copy or is never modified afterwards by later steps, and membership computations work on copies so a refused change leaves the original as it was. A snapshot taken from storage stays what it was when taken.''',
     'histories schedules', 'every later sequence of calls after data was handed out',
     'Tests compare values right after the call; aliasing shows only in later histories.',
     '''RawNode::GetStatus RawNode::GetBasicStatus RawNode::WithProgress Progress::Clone Inflights::Clone Changer::* MemoryStorage::CreateSnapshot MemoryStorage::SnapShot MemoryStorage::ApplySnapshot MemoryStorage::Entries MemoryStorage::Compact Raft::MaybeSendAppend{Raft::msgs_,ret} Raft::HandleSnapshot NewReady Raft::AppendEntry{Unstable::entries_} Util::MakeEntries Unstable::TruncateAndAppend Unstable::Slice RaftLog::Slice ReadOnly::Advance ReadOnly::AddRequest Status::* Raft::ResponseToReadIndexReq''',
     [('src/rawnode.cc', 'GetStatus, WithProgress'), ('src/confchange/confchange.cc', 'CheckAndCopy'), ('src/storage.cc', 'CreateSnapshot')], rules=['lifetime'])

prop('C31', 'Independent nodes in one process share no mutable state',
     '''Two nodes created in one process influence each other only through the messages and the storage the application passes between them: the library keeps no writable process-wide state that a step, tick or read changes, apart from the random source and the logger, so nodes on different threads need no common lock.''',
     'schedules programs', 'any number of nodes stepped from any number of threads',
     'Tests run nodes in one thread; sharing shows only in particular schedules.',
     '''Util::Random''',
     [('src/util.cc', 'Random'), ('src/define.h', 'constants')], rules=['globals'])

prop('C32', 'No error of a storage or membership operation is lost',
     '''Every error a storage read, a log read or a membership computation reports is passed on to the caller, handled as a documented case, or aborts the node; a value accompanying an error is never used as if valid. Callers get the documented error for each refused operation.''',
     'inputs fault_sequences', 'every call that can fail, with every error it can return',
     'Tests make storage fail in few places; each call site has to be right for each error.',
     '''RaftLog::Term RaftLog::ZeroTermOnErrCompacted RaftLog::Slice RaftLog::Entries RaftLog::AllEntries RaftLog::NextEnts RaftLog::FirstIndex RaftLog::LastIndex RaftLog::LastTerm RaftLog::Snapshot RaftLog::MustCheckOutOfBounds RaftLog::FindConflictByTerm RaftLog::FindConflict RaftLog::MatchTerm RaftLog::NewWithSize Raft::MaybeSendAppend Raft::New{outcome} Raft::Hup Raft::HandleAppendEntries Raft::Restore{outcome,ret} Raft::ApplyConfChange RawNode::Step RawNode::Bootstrap RawNode::ProposeConfChange ConfChangeToMsg Changer::* Restore chain MemoryStorage::Entries MemoryStorage::Term MemoryStorage::Compact MemoryStorage::CreateSnapshot MemoryStorage::ApplySnapshot MemoryStorage::Append Raft::Step{ret} Raft::AppendEntry{ret,outcome} Raft::BecomeLeader{outcome} Raft::Advance{outcome} err
     Raft::StepLeader{ret} Raft::StepFollower{ret} Raft::StepCandidate{ret} RawNode::Propose RawNode::Campaign''',
     [('src/log.cc', 'Term, Slice, ZeroTermOnErrCompacted'), (R, 'MaybeSendAppend, New')], rules=[])

prop('C33', 'Logging never reads outside its arguments or changes the outcome',
     '''Every log and error line supplies exactly the arguments its format consumes, strings as characters of a live object and integers for numeric conversions, so logging at any level cannot crash or disclose memory; a fatal line never returns to the caller, the level only decides whether a line is printed, and the console logger writes each line as a whole.''',
     'inputs programs', 'every log statement on every path and level',
     'Tests execute few of the log lines and never check their arguments.',
     '''Logger::* ConsoleLogger::* Status::Error StateTypeName RaftStateTypeName CampaignTypeName Progress::String RaftLog::String Ready::String ProgressTracker::Config::String MajorityConfig::String JointConfig::String err''',
     [('src/logger.h', 'CRAFT_LOG macros'), ('src/logger.cc', 'Log, Logv')], rules=['logformat', 'loglock', 'lifetime'])

prop('C34', 'Size-limited reads return the longest fitting prefix, at least one entry',
     '''Wherever entries are limited by bytes (messages, batches to apply, storage reads) the result is the longest prefix of the requested range whose total encoded size stays within the limit, but contains at least the first entry whenever the range is not empty, also when the range spans persisted and unstable entries; an unlimited request is never cut.''',
     'inputs', 'every entry size sequence and every limit including zero and the maximum',
     'Tests use equal-size entries and two or three limits.',
     '''Util::LimitSize RaftLog::Slice RaftLog::Entries RaftLog::NextEnts RaftLog::AllEntries MemoryStorage::Entries Raft::MaybeSendAppend{Raft::msgs_,ret} RaftLog::NewWithSize RaftLog::New Raft::New{RaftLog::max_next_ents_size_,ret,Raft::max_msg_size_} RaftLog::RaftLog Raft::Config::Validate''',
     [('src/util.cc', 'LimitSize'), ('src/log.cc', 'Slice')], rules=[])

prop('C35', 'A status value owns its text and reports exactly success or its message',
     '''A status is success exactly when it carries no message; copying gives an independent equal value, moving out leaves the source empty or holding what the destination held, self-assignment is harmless, its text lives as long as it does and is freed exactly once, and a formatted error contains its formatted message.''',
     'inputs programs', 'every sequence of copies, moves and assignments',
     'Tests rarely copy or move errors; ownership faults surface only under particular sequences.',
     '''Status::*''',
     [('src/status.h', 'Status'), ('src/status.cc', 'CopyState, Error')], rules=['lifetime'])

prop('C36', 'Membership changes survive encoding, upgrading and text conversion',
     '''A membership change of either version keeps its meaning when encoded into an entry and decoded, when a version-one change is read as version two, and when written as text and parsed back; a single change without explicit request is simple, several changes or an explicit request enter joint consensus with automatic leave unless explicitly asked otherwise, and an empty change means leaving. Malformed text is refused.''',
     'inputs', 'every change list, transition flag and text',
     'Tests convert a few changes; all flag and list combinations matter.',
     '''ConfChangeI::* EnterJoint LeaveJoint ConfChangesFromString ConfChangesToString ConfChangeToMsg Util::Split Util::Trim operator== Raft::StepLeader[MsgProp]{Raft::pending_conf_index_,outcome} Raft::ApplyConfChange RawNode::ApplyConfChange''',
     [('src/raftpb/confchange.cc', 'AsV2, Marshal, EnterJoint, ConfChangesFromString'), ('src/raftpb/confstate.cc', 'equality')], rules=[])

prop('C37', 'Only network messages of known senders reach the state machine',
     '''A message from outside is refused if it is of a purely local type, or if it is an answer from a node without progress here; every other message is processed and its result returned. Local operations (tick, campaign, propose, read, reports, transfer) produce exactly the one local message that stands for them.''',
     'inputs', 'every message type, including ones added later, and every sender',
     'Tests check each type once with one sender.',
     '''Util::IsLocalMsg Util::IsResponseMsg RawNode::Step RawNode::Campaign RawNode::Propose RawNode::ProposeConfChange RawNode::ReportUnreachable RawNode::ReportSnapshot RawNode::TransferLeader RawNode::ReadIndex RawNode::Tick RawNode::TickQuiesced Util::VoteRespMsgType ProgressTracker::GetProgress GetProgress''',
     [('src/util.cc', 'IsLocalMsg, IsResponseMsg'), ('src/rawnode.cc', 'Step')], rules=[])

prop('C38', 'A follower that can make progress is always sent what it is missing',
     '''After every event that can unblock a follower (acknowledgement, genuine rejection, heartbeat answer while behind, commit advance, membership change, transfer, proposal) the leader sends what it may: new entries up to the window, a commit index to those held back, everyone on a commit advance; and a non-empty or forced empty append is never suppressed except for a paused or unknown follower.''',
     'histories fault_sequences', 'every event order and follower state',
     'Tests observe single sends; a missing resend is visible only after particular losses.',
     '''Raft::StepLeader[MsgAppResp,MsgHeartbeatResp,MsgProp,MsgTransferLeader,MsgSnapStatus]{Raft::msgs_,Progress::,ProgressTracker::progress_,Inflights::,ret} Raft::MaybeSendAppend Raft::SendAppend Raft::BcastAppend Raft::SwitchToConfig Progress::IsPaused Raft::StepCandidate[MsgVoteResp] Raft::BcastHeartbeatWithCtx ProgressTracker::Visit Progress::MaybeUpdate Progress::MaybeDecrTo Progress::BecomeReplicate Progress::BecomeProbe''',
     [(R, 'StepLeader, MaybeSendAppend, SwitchToConfig')], rules=[])

prop('C39', 'Index arithmetic never leaves its container or wraps',
     '''Every access to a log, window, ring, voter or message list uses a position inside it, and every index difference is taken only where it cannot go below zero or be cut to a smaller width; a request outside the available range is refused with the documented error or aborts before any access.''',
     'inputs histories', 'every index up to the maximum of 64 bits, every container size including empty',
     'Tests use small indexes; wrap, truncation and emptiness show only at extremes.',
     '''MemoryStorage::* Unstable::* RaftLog::Slice RaftLog::MustCheckOutOfBounds RaftLog::Term RaftLog::FirstIndex RaftLog::LastIndex RaftLog::MaybeAppend RaftLog::Append RaftLog::FindConflict RaftLog::FindConflictByTerm RaftLog::NextEnts RaftLog::HasNextEnts Inflights::* JointConfig::At MajorityConfig::CommittedIndex insertionSort MajorityConfig::Slice Progress::MaybeDecrTo Progress::MaybeUpdate Progress::BecomeProbe Ready::AppliedCursor Raft::Advance ReadOnly::Advance ReadOnly::LastPendingRequestCtx Util::LimitSize RaftLog::CommitTo RaftLog::AppliedTo Raft::MaybeSendAppend RaftLog::NewWithSize Raft::IncreaseUncommittedSize Raft::ReduceUncommittedSize MajorityConfig::Describe Ready::String Raft::ResetRandomizedElectionTimeout Util::Random''',
     [('src/storage.cc', 'MemoryStorage'), ('src/log_unstable.cc', 'Unstable'), ('src/tracker/inflights.cc', 'Inflights')], rules=[])

prop('C40', 'Messages and stored records keep their wire format',
     '''Messages, entries, snapshots, hard states and membership records are encoded with the field numbers, field kinds and enumeration values the format has always had, so that nodes of different builds understand each other and stored logs stay readable; encoding and decoding use the same record types on both sides.''',
     'programs histories', 'every record exchanged with or stored by another build',
     'Tests encode and decode with one build only.',
     '''ConfChangeI::Marshal ConfChangeToMsg RawNode::Bootstrap''',
     [('src/raftpb/raft.proto', 'message and enum definitions'), ('src/raftpb/confchange.cc', 'Marshal')], rules=['wire'])

prop('C41', 'What a node reports about itself is its actual state',
     '''The status a node gives out carries its own id, term, vote, commit index, role, known leader, applied index, pending transfer target and membership as they are at that moment; it lists the progress of every tracked peer exactly while the node is leader, a progress visit shows every peer once with its kind (voter or learner), and the printed forms of progress, membership and role show the values they describe.''',
     'histories', 'every state a node can be in when it is asked',
     'Tests ask one or two idle nodes; a field taken from the wrong place differs only in particular states (uncommitted tail, pending transfer, joint membership).',
     '''RawNode::GetStatus RawNode::GetBasicStatus RawNode::WithProgress Raft::GetSoftState Raft::GetHardState Raft::LeadTransferee Raft::ID RaftLog::Applied RaftLog::Committed Raft::Term Raft::Vote Raft::Lead Raft::State ProgressTracker::GetConfig ProgressTracker::GetProgressMap ProgressTracker::Visit Progress::Clone Inflights::Clone Progress::String ProgressTracker::Config::String JointConfig::String MajorityConfig::String RaftLog::String StateTypeName RaftStateTypeName''',
     [('src/rawnode.cc', 'GetStatus, GetBasicStatus, WithProgress'), ('src/tracker/progress.cc', 'Clone, String')], rules=[])

# functions a property depends on without being its main place
MORE = {
    'C01': 'MustSync NewReady{Ready::must_sync,Ready::hard_state} Unstable::StableTo',
    'C02': 'Raft::State Raft::SetState Raft::SetStep MustSync NewReady{Ready::must_sync,Ready::hard_state}',
    'C03': 'Raft::Promotable Raft::Step[MsgVoteResp]',
    'C04': 'Unstable::MaybeTerm RaftLog::LastIndex RaftLog::MaybeAppend{RaftLog::committed_}',
    'C05': 'Unstable::MaybeTerm Unstable::MaybeLastIndex RaftLog::FirstIndex Unstable::Slice Raft::Step[MsgApp]',
    'C06': 'Unstable::MaybeLastIndex',
    'C07': 'Unstable::Slice Unstable::MaybeFirstIndex Unstable::MaybeLastIndex Unstable::StableSnapTo RaftLog::FirstIndex RaftLog::LastIndex RaftLog::MaybeAppend{RaftLog::committed_} RaftLog::MaybeCommit Raft::HandleAppendEntries{RaftLog::committed_}',
    'C08': 'Unstable::StableTo Unstable::StableSnapTo Unstable::Entries Unstable::Snapshot',
    'C09': 'Unstable::StableSnapTo Unstable::StableTo Raft::Step[MsgSnap] NewReady{Ready::snapshot} Raft::Promotable',
    'C10': 'Unstable::MaybeTerm Unstable::MaybeFirstIndex RaftLog::FirstIndex Raft::Reset{ProgressTracker::progress_} Progress::OptimisticUpdate MemoryStorage::SnapShot',
    'C11': 'Raft::Reset{ProgressTracker::progress_} Raft::BecomeLeader{ProgressTracker::progress_,Progress::,Inflights::}',
    'C12': 'Raft::MaybeSendAppend{Progress::} Raft::HandleAppendEntries{Raft::msgs_} Raft::BecomeLeader{ProgressTracker::progress_,Progress::}',
    'C13': 'NewReady{Ready::read_states} RawNode::AcceptReady Raft::Config::Validate Raft::Lead Raft::HasLeader',
    'C14': 'RaftLog::IsUpToData Raft::Poll ProgressTracker::RecordVote ProgressTracker::ResetVotes ProgressTracker::TallyVotes JointConfig::VoteResult MajorityConfig::VoteResult Raft::Promotable',
    'C15': 'Raft::ElectionElapsed',
    'C16': 'Raft::Promotable',
    'C17': 'Raft::SwitchToConfig',
    'C18': 'Raft::Advance ConfChangeI::* Raft::Restore{ProgressTracker::,ret} JointConfig::* RawNode::ApplyConfChange',
    'C19': 'ProgressTracker::RecordVote ProgressTracker::Votes',
    'C21': 'Raft::Advance{Unstable::}',
    'C24': 'Raft::SetUncommittedSize',
    'C25': 'Raft::Hup Raft::ElectionElapsed Raft::RandomizedElectionTimeout',
    'C27': 'Changer::* chain MemoryStorage::SetHardState MemoryStorage::Append MemoryStorage::ApplySnapshot JointConfig::JointConfig',
    'C28': 'Changer::* Restore chain toConfChangeSingle ProgressTracker::Visit ProgressTracker::ConfState Raft::Restore{Raft::is_learner_,ret}',
    'C29': 'ProgressTracker::Visit Raft::Step[MsgHeartbeat]',
    'C30': 'Util::MakeMsg RawNode::GetRaft',
    'C32': 'Status::*',
    'C38': 'Raft::Reset{ProgressTracker::progress_} Progress::OptimisticUpdate Progress::BecomeSnapshot Inflights::Full Inflights::FreeLE Inflights::FreeFirstOne',
}
for _k, _v in MORE.items():
    P[_k]['scope'] += [x for x in _v.split() if x not in P[_k]['scope']]

NA = [
    ('N01', 'Committed entries are the same on all nodes, in all runs',
     'At no point in any execution of a cluster do two nodes apply different entries at the same index, and a committed entry is present in the log of every later leader.',
     'schedules crash_points histories',
     'a statement about unbounded multi-node histories; its per-node premises are decided as C01-C09, C17-C19 and C27, but the inductive composition over a cluster is not visible in the shape of the source'),
    ('N02', 'Reads through read requests are linearizable across the cluster',
     'A read served at a returned read index never misses a write that completed before the read was requested, on any node, under any schedule.',
     'schedules histories', 'ordering of multi-node histories; only the per-node mechanism (C13) is in the source'),
    ('N03', 'A connected majority eventually elects a leader and commits',
     'If a majority of voters stays connected and ticks, a leader is eventually elected with probability one and every accepted proposal of a stable leader is eventually applied.',
     'schedules fault_sequences', 'liveness under randomised timeouts and scheduling; the local clauses are C25 and C38'),
    ('N04', 'An application that persists before sending never loses acknowledged data',
     'With the documented order of persisting and sending, no crash at any point makes a node forget a vote, term or entry that another node relied on.',
     'crash_points histories', 'depends on what the embedding application does between taking and acknowledging a batch, which is not in this repository; the library side is C08 and C27'),
    ('N05', 'Encoding and decoding a record is the identity for every value',
     'Every message, entry, snapshot and membership record decodes to exactly the value that was encoded.',
     'inputs', 'a round trip through the generated protobuf code and its runtime library, which is not this repository\'s source; the part that is, field numbers and types, is C40'),
]
