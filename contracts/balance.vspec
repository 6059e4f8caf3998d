# Kafka: consuming (C17), producing (C16)

# ---- C17 ----

# what happened to the last message: 0 none, 1 received, 2 decoded, 3 does not decode, 4 handed over, 5 marked
ghostvar kstate int
ghostvar kmsg *sarama.ConsumerMessage
ghostvar kspan proxy.Span

extern sarama.ConsumerGroupClaim.Messages(c) (r)

func balance.consumerGroupHandler.ConsumeClaim(consumer, session, claim) (err)
  props C17
  requires consumer != nil && consumer.callback != nil && session != nil && claim != nil && kstate == 0
  modifies kstate, kmsg, kspan
  # sarama delivers no nil messages
  onrecv any(c, m, ok) assume ok ==> m != nil
  # the message before is finished: marked, or it does not decode
  onrecv any(c, m, ok) requires [finished] kstate == 0 || kstate == 3 || kstate == 5
  onrecv any(c, m, ok) set kstate := ite(ok, 1, 0)
  onrecv any(c, m, ok) set kmsg := m
  oncall codec.BinaryDecode(r, span, e) requires [decodes] kstate == 1 && r != nil && r.i == 0 && len(r.s) == len(kmsg.Value) && (forall i int :: 0 <= i && i < len(r.s) ==> r.s[i] == kmsg.Value[i])
  oncall codec.BinaryDecode(r, span, e) set kstate := ite(e == nil, 2, 3)
  oncall codec.BinaryDecode(r, span, e) set kspan := span
  oncall consumer.callback(span) requires [delivers] kstate == 2 && span == kspan
  oncall consumer.callback(span) set kstate := 4
  oncall sarama.ConsumerGroupSession.MarkMessage(s, m, meta) requires [marks] kstate == 4 && m == kmsg && s == session
  oncall sarama.ConsumerGroupSession.MarkMessage(s, m, meta) set kstate := 5
  # ends only when the claim is closed
  ensures [closed] kstate == 0
  loopinv kstate == 0 || kstate == 3 || kstate == 5
