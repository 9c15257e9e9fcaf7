define leaderHash(m, h, p) = hex.EncodeToString(string(sha256.Sum256(m + strconv.FormatInt(h, 10) + p)))

func p2p.LeaderNode(msgID, blockHeight, pIDs) (leader, err) [C02]
  nopanic [C02]
  ensures len(pIDs) == 0 || len(msgID) == 0 || blockHeight == 0 ==> err != nil && leader == ""
  ensures !(len(pIDs) == 0 || len(msgID) == 0 || blockHeight == 0) ==> err == nil
  ensures err == nil ==> leader in pIDs
  ensures err == nil ==> forall i int :: 0 <= i && i < len(pIDs) ==> leaderHash(msgID, blockHeight, leader) <= leaderHash(msgID, blockHeight, pIDs[i])
