// ---- blame records (C10) ----
guard blame.Blame.FailReason by blame.Blame.blameLock [C23]
guard blame.Blame.IsUnicast by blame.Blame.blameLock [C23]
guard blame.Blame.BlameNodes by blame.Blame.blameLock [C23]

extern pure bytes.Equal(a, b) (r)
  ensures r <==> string(a) == string(b)

define nodeEq(a, b) = a.Pubkey == b.Pubkey && string(a.BlameSignature) == string(b.BlameSignature)

func blame.NewBlame(reason, blameNodes) (r) [C10]
  nopanic [C07]
  ensures r.FailReason == reason && r.BlameNodes == blameNodes && !r.IsUnicast && fresh(r.blameLock)

func blame.Node.Equal(bn, node) (r) [C10]
  nopanic [C07]
  ensures r <==> nodeEq(bn, node)

func blame.Blame.SetBlame(b, reason, nodes, isUnicast) () [C10]
  requires b.blameLock != nil
  modifies b.FailReason, b.IsUnicast, b.BlameNodes
  locks [C23]
  nopanic [C07]
  ensures b.FailReason == reason && b.IsUnicast == isUnicast
  ensures len(b.BlameNodes) == old(len(b.BlameNodes)) + len(nodes)
  ensures forall i int :: 0 <= i && i < old(len(b.BlameNodes)) ==> b.BlameNodes[i] == old(b.BlameNodes[i])
  ensures forall i int :: 0 <= i && i < len(nodes) ==> b.BlameNodes[old(len(b.BlameNodes)) + i] == nodes[i]

func blame.Blame.AlreadyBlame(b) (r) [C10]
  requires b.blameLock != nil
  locks [C23]
  nopanic [C07]
  ensures r <==> len(b.BlameNodes) > 0

func blame.Blame.AddBlameNodes(b, newBlameNodes) () [C10]
  requires b.blameLock != nil
  modifies b.BlameNodes
  locks [C23]
  nopanic [C07]
  // nothing is lost or reordered
  ensures len(b.BlameNodes) >= old(len(b.BlameNodes))
  ensures forall i int :: 0 <= i && i < old(len(b.BlameNodes)) ==> b.BlameNodes[i] == old(b.BlameNodes[i])
  // what is added is one of the given nodes, and not equal to an earlier one
  ensures forall i int :: old(len(b.BlameNodes)) <= i && i < len(b.BlameNodes) ==> (exists j int :: 0 <= j && j < len(newBlameNodes) && newBlameNodes[j] == b.BlameNodes[i])
  ensures forall i int, j int :: old(len(b.BlameNodes)) <= i && i < len(b.BlameNodes) && 0 <= j && j < i ==> !nodeEq(b.BlameNodes[i], b.BlameNodes[j])
  // every given node is represented
  ensures forall j int :: 0 <= j && j < len(newBlameNodes) ==> (exists i int :: 0 <= i && i < len(b.BlameNodes) && nodeEq(b.BlameNodes[i], newBlameNodes[j]))
func blame.Blame.SetUnicast(b, isUnicast) () [C10]
  requires b.blameLock != nil
  modifies b.IsUnicast
  nopanic [C07]
  locks [C23]
  ensures b.IsUnicast == isUnicast
func blame.Blame.Snapshot(b) (r) [C10]
  requires b.blameLock != nil
  nopanic [C07]
  locks [C23]
  ensures r.FailReason == b.FailReason && r.IsUnicast == b.IsUnicast && r.BlameNodes == b.BlameNodes && r.blameLock == b.blameLock
