---------------------------- MODULE ProtosTrace ----------------------------
EXTENDS ProtoWire, IOUtils, TLCExt
VARIABLE l
Tr == ndJsonDeserialize(IOEnv.TRACE)
Chars == <<"0","1","2","3","4","5","6","7","8","9">>
(* the harness sends texts of the letters the table below knows *)
Alpha == [c \in {"a","b","c","d","t","x","y","z","_","0","1","i","m","e"} |->
   CASE c = "a" -> 97 [] c = "b" -> 98 [] c = "c" -> 99 [] c = "d" -> 100 [] c = "t" -> 116 [] c = "x" -> 120 [] c = "y" -> 121 [] c = "z" -> 122 [] c = "_" -> 95 [] c = "0" -> 48 [] c = "1" -> 49
     [] c = "i" -> 105 [] c = "m" -> 109 [] c = "e" -> 101]
AsciiOf(s) == [k \in 1..Len(s) |-> Alpha[SubSeq(s, k, k)]]
P == INSTANCE Protos WITH Ascii <- AsciiOf
Msg(e) ==
  LET d == Dec(e.ty, e.in) IN
  IF d.ok THEN /\ e.res = "ok"
               /\ Norm(e.tree) = Tree(e.ty, d.v)
               /\ e.enc = Enc(e.ty, d.v) /\ e.len = Len(e.enc)
  ELSE e.res = "err"
Points(e) == LET p == P!FbPoints(e.buf) IN
  /\ P!BuiltOk([tags |-> e.tags, fields |-> e.fields, vals |-> e.want, time |-> e.time, db |-> e.db, tab |-> e.tab], p)
  /\ e.view.db = <<"ok", e.db>> /\ e.view.tables[1] = "ok" /\ Len(e.view.tables[2]) = 1
  /\ e.view.tables[2][1].tab = <<"ok", e.tab>> /\ e.view.tables[2][1].rows = Len(e.time) /\ e.view.tables[2][1].cols[1] = "ok"
  /\ LET cs == e.view.tables[2][1].cols[2]
         bare(v) == [v EXCEPT !.nb = <<>>] IN
     /\ {bare(cs[i]) : i \in 1..Len(cs)} = {bare(P!ColView([name |-> c.name, ct |-> c.ct, ft |-> c.ft, vals |-> c.vals, nb |-> <<>>])) :
            c \in P!Built([tags |-> e.tags, fields |-> e.fields, vals |-> e.want, time |-> e.time])}
     /\ \A i \in 1..Len(cs) : cs[i].nb[1] = "ok" /\ P!AllSet(cs[i].nb[2], Len(e.time))
Raw(e) == LET p == [db |-> e.db, tables |-> e.tables] IN
  /\ P!FbPoints(e.buf) = P!APoints(p)
  /\ e.view = P!View(p)
  /\ e.shown = P!Shown(p)
(* every remote method: service, request, reply, streams *)
KV == "kv_service.TSKVService"
RF == "raft_service.RaftService"
JS == "jaeger.storage.v1."
Rpcs == [
  Ping |-> <<KV, "kv_service::PingRequest", "kv_service::PingResponse">>,
  DownloadFile |-> <<KV, "kv_service::DownloadFileRequest", "kv_service::BatchBytesResponse">>,
  TagScan |-> <<KV, "kv_service::QueryRecordBatchRequest", "kv_service::BatchBytesResponse">>,
  QueryRecordBatch |-> <<KV, "kv_service::QueryRecordBatchRequest", "kv_service::BatchBytesResponse">>,
  RaftWrite |-> <<KV, "kv_service::RaftWriteCommand", "kv_service::BatchBytesResponse">>,
  AdminRequest |-> <<KV, "kv_service::AdminCommand", "kv_service::BatchBytesResponse">>,
  RaftVote |-> <<RF, "raft_service::RaftVoteReq", "raft_service::RaftResponse">>,
  RaftSnapshot |-> <<RF, "raft_service::RaftSnapshotReq", "raft_service::RaftResponse">>,
  RaftAppendEntries |-> <<RF, "raft_service::RaftAppendEntriesReq", "raft_service::RaftResponse">>,
  Export |-> <<"opentelemetry.proto.collector.trace.TraceService", "trace_service::ExportTraceServiceRequest", "trace_service::ExportTraceServiceResponse">>,
  WriteSpan |-> <<JS \o "SpanWriterPlugin", "jaeger_storage_v1::WriteSpanRequest", "jaeger_storage_v1::WriteSpanResponse">>,
  Close |-> <<JS \o "SpanWriterPlugin", "jaeger_storage_v1::CloseWriterRequest", "jaeger_storage_v1::CloseWriterResponse">>,
  WriteSpanStream |-> <<JS \o "StreamingSpanWriterPlugin", "jaeger_storage_v1::WriteSpanRequest", "jaeger_storage_v1::WriteSpanResponse">>,
  GetTrace |-> <<JS \o "SpanReaderPlugin", "jaeger_storage_v1::GetTraceRequest", "jaeger_storage_v1::SpansResponseChunk">>,
  GetServices |-> <<JS \o "SpanReaderPlugin", "jaeger_storage_v1::GetServicesRequest", "jaeger_storage_v1::GetServicesResponse">>,
  GetOperations |-> <<JS \o "SpanReaderPlugin", "jaeger_storage_v1::GetOperationsRequest", "jaeger_storage_v1::GetOperationsResponse">>,
  FindTraces |-> <<JS \o "SpanReaderPlugin", "jaeger_storage_v1::FindTracesRequest", "jaeger_storage_v1::SpansResponseChunk">>,
  FindTraceIDs |-> <<JS \o "SpanReaderPlugin", "jaeger_storage_v1::FindTraceIDsRequest", "jaeger_storage_v1::FindTraceIDsResponse">>,
  WriteArchiveSpan |-> <<JS \o "ArchiveSpanWriterPlugin", "jaeger_storage_v1::WriteSpanRequest", "jaeger_storage_v1::WriteSpanResponse">>,
  GetArchiveTrace |-> <<JS \o "ArchiveSpanReaderPlugin", "jaeger_storage_v1::GetTraceRequest", "jaeger_storage_v1::SpansResponseChunk">>,
  GetDependencies |-> <<JS \o "DependenciesReaderPlugin", "jaeger_storage_v1::GetDependenciesRequest", "jaeger_storage_v1::GetDependenciesResponse">>,
  Capabilities |-> <<JS \o "PluginCapabilities", "jaeger_storage_v1::CapabilitiesRequest", "jaeger_storage_v1::CapabilitiesResponse">>]
Canon(ty, b) == LET d == Dec(ty, b) IN IF Assert(d.ok, <<"generated message does not read", ty, b>>) THEN Enc(ty, d.v) ELSE <<>>
Rpc(e) == LET r == Rpcs[e.m] IN
  /\ e.path = <<"/" \o r[1] \o "/" \o e.m>>
  /\ Len(e.seen) = Len(e.in) /\ \A i \in 1..Len(e.in) : e.seen[i] = Canon(r[2], e.in[i])
  /\ IF e.fail THEN e.res = "err" /\ e.code = "Aborted"
     ELSE e.res = "ok" /\ Len(e.out) = Len(e.reply) /\ \A i \in 1..Len(e.reply) : e.out[i] = Canon(r[3], e.reply[i])
(* numbers and words of an enumeration *)
EnumOk(e) == LET vs == SchemaFile.enums[EnumIx[e.ty]].vals
                 byn(n) == {i \in 1..Len(vs) : vs[i].v = n}
                 byw(w) == {i \in 1..Len(vs) : vs[i].text = w} IN
  /\ Len(e.byn) = Len(e.ns) /\ \A i \in 1..Len(e.ns) : e.byn[i] = (IF byn(e.ns[i]) = {} THEN <<>> ELSE <<vs[CHOOSE k \in byn(e.ns[i]) : TRUE].text, e.ns[i], TRUE>>)
  /\ Len(e.byw) = Len(e.ws) /\ \A i \in 1..Len(e.ws) : e.byw[i] = (IF byw(e.ws[i]) = {} THEN <<>> ELSE <<vs[CHOOSE k \in byw(e.ws[i]) : TRUE].v>>)
  /\ e.def = vs[1].v
Step(e) == CASE e.op = "msg" -> Msg(e) [] e.op = "points" -> Points(e) [] e.op = "raw" -> Raw(e)
             [] e.op = "call" -> P!Call(e, e) [] e.op = "ping" -> P!Ping(e, e) [] e.op = "rpc" -> Rpc(e) [] e.op = "enum" -> EnumOk(e) [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Tr) /\ Step(Tr[l]) /\ l' = l + 1
TraceAccepted == LET d == TLCGet("stats").diameter IN d = Len(Tr) + 1 \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
