// ---- subscriptions (C19) ----
guard p2p.MessageIDSubscriber.subscribers by p2p.MessageIDSubscriber.lock [C23]
guard p2p.Communication.subscribers by p2p.Communication.subscriberLocker [C23]

func p2p.NewMessageIDSubscriber() (r) [C19]
  nopanic [C07]
  ensures fresh(r) && fresh(r.lock) && fresh(r.subscribers) && (forall m string :: !(m in r.subscribers))

func p2p.MessageIDSubscriber.Subscribe(ms, msgID, channel) () [C19]
  requires ms.lock != nil && ms.subscribers != nil
  modifies elems(ms.subscribers)
  nopanic [C07]
  locks [C23]
  ensures msgID in ms.subscribers && ms.subscribers[msgID] == channel
  ensures forall m string :: m != msgID ==> (m in ms.subscribers) == old(m in ms.subscribers) && ms.subscribers[m] == old(ms.subscribers[m])

func p2p.MessageIDSubscriber.UnSubscribe(ms, msgID) () [C19]
  requires ms.lock != nil && ms.subscribers != nil
  modifies elems(ms.subscribers)
  nopanic [C07]
  locks [C23]
  ensures !(msgID in ms.subscribers)
  ensures forall m string :: m != msgID ==> (m in ms.subscribers) == old(m in ms.subscribers) && ms.subscribers[m] == old(ms.subscribers[m])

func p2p.MessageIDSubscriber.GetSubscriber(ms, msgID) (c) [C19]
  requires ms.lock != nil
  nopanic [C07]
  locks [C23]
  ensures c == ms.subscribers[msgID]

func p2p.MessageIDSubscriber.IsEmpty(ms) (r) [C19]
  requires ms.lock != nil
  nopanic [C07]
  locks [C23]
  ensures r <==> (forall m string :: !(m in ms.subscribers))

// every topic has its own table, and every table its own map and lock
define subsOK(c) = c.subscriberLocker != nil && c.subscribers != nil && (forall t messages.THORChainTSSMessageType :: t in c.subscribers ==> c.subscribers[t] != nil && c.subscribers[t].lock != nil && c.subscribers[t].lock != c.subscriberLocker && c.subscribers[t].subscribers != nil) && (forall t messages.THORChainTSSMessageType, u messages.THORChainTSSMessageType :: t in c.subscribers && u in c.subscribers && t != u ==> c.subscribers[t] != c.subscribers[u] && c.subscribers[t].subscribers != c.subscribers[u].subscribers)
define subOf(c, t, m) = ite(t in c.subscribers, c.subscribers[t].subscribers[m], nil)

func p2p.Communication.SetSubscribe(c, topic, msgID, channel) () [C19]
  requires subsOK(c)
  modifies elems(c.subscribers), elems(c.subscribers[topic].subscribers)
  nopanic [C07]
  locks [C23]
  ensures subsOK(c)
  ensures subOf(c, topic, msgID) == channel
  ensures forall t messages.THORChainTSSMessageType, m string :: t != topic || m != msgID ==> subOf(c, t, m) == old(subOf(c, t, m))

func p2p.Communication.CancelSubscribe(c, topic, msgID) () [C19]
  requires subsOK(c)
  modifies elems(c.subscribers), elems(c.subscribers[topic].subscribers)
  nopanic [C07]
  locks [C23]
  ensures subsOK(c)
  ensures subOf(c, topic, msgID) == nil
  ensures forall t messages.THORChainTSSMessageType, m string :: t != topic || m != msgID ==> subOf(c, t, m) == old(subOf(c, t, m))

func p2p.Communication.getSubscriber(c, topic, msgID) (r) [C19]
  requires subsOK(c)
  nopanic [C07]
  locks [C23]
  ensures r == subOf(c, topic, msgID)
