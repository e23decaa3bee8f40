SPECIFICATION Spec
INVARIANTS RealIpFirst ForwardedNext PeerLast EntriesClean ProtoIsOne TlsUnlessTold NoParameters Emit
CHECK_DEADLOCK FALSE
