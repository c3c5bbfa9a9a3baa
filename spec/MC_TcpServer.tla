---------------------------- MODULE MC_TcpServer ----------------------------
EXTENDS TcpServer, Json
Emit == Len(acts) = MaxActs => PrintT("STIM " \o ToJson([Dl |-> HasDeadline, Acts |-> acts]))
=============================================================================
