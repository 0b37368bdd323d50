// every message of spec/ProtoSchema.json
use super::f;
pub fn run(ty: &str, b: &[u8], via: &str) -> serde_json::Value { match ty {
    "kv_service::PingRequest" => f::<protos::kv_service::PingRequest>(b, via),
    "kv_service::PingResponse" => f::<protos::kv_service::PingResponse>(b, via),
    "kv_service::Meta" => f::<protos::kv_service::Meta>(b, via),
    "kv_service::WritePointsResponse" => f::<protos::kv_service::WritePointsResponse>(b, via),
    "kv_service::BatchBytesResponse" => f::<protos::kv_service::BatchBytesResponse>(b, via),
    "kv_service::WriteDataRequest" => f::<protos::kv_service::WriteDataRequest>(b, via),
    "kv_service::DropTableRequest" => f::<protos::kv_service::DropTableRequest>(b, via),
    "kv_service::DropColumnRequest" => f::<protos::kv_service::DropColumnRequest>(b, via),
    "kv_service::UpdateSetValue" => f::<protos::kv_service::UpdateSetValue>(b, via),
    "kv_service::UpdateTagsRequest" => f::<protos::kv_service::UpdateTagsRequest>(b, via),
    "kv_service::DeleteFromTableRequest" => f::<protos::kv_service::DeleteFromTableRequest>(b, via),
    "kv_service::RaftWriteCommand" => f::<protos::kv_service::RaftWriteCommand>(b, via),
    "kv_service::CompactVnodeRequest" => f::<protos::kv_service::CompactVnodeRequest>(b, via),
    "kv_service::FetchChecksumRequest" => f::<protos::kv_service::FetchChecksumRequest>(b, via),
    "kv_service::OpenRaftNodeRequest" => f::<protos::kv_service::OpenRaftNodeRequest>(b, via),
    "kv_service::DropRaftNodeRequest" => f::<protos::kv_service::DropRaftNodeRequest>(b, via),
    "kv_service::AddRaftFollowerRequest" => f::<protos::kv_service::AddRaftFollowerRequest>(b, via),
    "kv_service::RemoveRaftNodeRequest" => f::<protos::kv_service::RemoveRaftNodeRequest>(b, via),
    "kv_service::DestoryRaftGroupRequest" => f::<protos::kv_service::DestoryRaftGroupRequest>(b, via),
    "kv_service::PromoteLeaderRequest" => f::<protos::kv_service::PromoteLeaderRequest>(b, via),
    "kv_service::LearnerToFollowerRequest" => f::<protos::kv_service::LearnerToFollowerRequest>(b, via),
    "kv_service::BuildRaftGroupRequest" => f::<protos::kv_service::BuildRaftGroupRequest>(b, via),
    "kv_service::AdminCommand" => f::<protos::kv_service::AdminCommand>(b, via),
    "kv_service::DownloadFileRequest" => f::<protos::kv_service::DownloadFileRequest>(b, via),
    "kv_service::QueryRecordBatchRequest" => f::<protos::kv_service::QueryRecordBatchRequest>(b, via),
    "raft_service::RaftResponse" => f::<protos::raft_service::RaftResponse>(b, via),
    "raft_service::RaftVoteReq" => f::<protos::raft_service::RaftVoteReq>(b, via),
    "raft_service::RaftSnapshotReq" => f::<protos::raft_service::RaftSnapshotReq>(b, via),
    "raft_service::RaftAppendEntriesReq" => f::<protos::raft_service::RaftAppendEntriesReq>(b, via),
    "logproto::PushRequest" => f::<protos::logproto::PushRequest>(b, via),
    "logproto::Stream" => f::<protos::logproto::Stream>(b, via),
    "logproto::Entry" => f::<protos::logproto::Entry>(b, via),
    "logproto::Timestamp" => f::<protos::logproto::Timestamp>(b, via),
    "jaeger_api_v2::Timestamp" => f::<protos::jaeger_api_v2::Timestamp>(b, via),
    "jaeger_api_v2::Duration" => f::<protos::jaeger_api_v2::Duration>(b, via),
    "jaeger_api_v2::KeyValue" => f::<protos::jaeger_api_v2::KeyValue>(b, via),
    "jaeger_api_v2::Log" => f::<protos::jaeger_api_v2::Log>(b, via),
    "jaeger_api_v2::SpanRef" => f::<protos::jaeger_api_v2::SpanRef>(b, via),
    "jaeger_api_v2::Process" => f::<protos::jaeger_api_v2::Process>(b, via),
    "jaeger_api_v2::Span" => f::<protos::jaeger_api_v2::Span>(b, via),
    "jaeger_api_v2::trace::ProcessMapping" => f::<protos::jaeger_api_v2::trace::ProcessMapping>(b, via),
    "jaeger_api_v2::Trace" => f::<protos::jaeger_api_v2::Trace>(b, via),
    "jaeger_api_v2::Batch" => f::<protos::jaeger_api_v2::Batch>(b, via),
    "jaeger_api_v2::DependencyLink" => f::<protos::jaeger_api_v2::DependencyLink>(b, via),
    "jaeger_storage_v1::GetDependenciesRequest" => f::<protos::jaeger_storage_v1::GetDependenciesRequest>(b, via),
    "jaeger_storage_v1::GetDependenciesResponse" => f::<protos::jaeger_storage_v1::GetDependenciesResponse>(b, via),
    "jaeger_storage_v1::WriteSpanRequest" => f::<protos::jaeger_storage_v1::WriteSpanRequest>(b, via),
    "jaeger_storage_v1::WriteSpanResponse" => f::<protos::jaeger_storage_v1::WriteSpanResponse>(b, via),
    "jaeger_storage_v1::CloseWriterRequest" => f::<protos::jaeger_storage_v1::CloseWriterRequest>(b, via),
    "jaeger_storage_v1::CloseWriterResponse" => f::<protos::jaeger_storage_v1::CloseWriterResponse>(b, via),
    "jaeger_storage_v1::GetTraceRequest" => f::<protos::jaeger_storage_v1::GetTraceRequest>(b, via),
    "jaeger_storage_v1::GetServicesRequest" => f::<protos::jaeger_storage_v1::GetServicesRequest>(b, via),
    "jaeger_storage_v1::GetServicesResponse" => f::<protos::jaeger_storage_v1::GetServicesResponse>(b, via),
    "jaeger_storage_v1::GetOperationsRequest" => f::<protos::jaeger_storage_v1::GetOperationsRequest>(b, via),
    "jaeger_storage_v1::Operation" => f::<protos::jaeger_storage_v1::Operation>(b, via),
    "jaeger_storage_v1::GetOperationsResponse" => f::<protos::jaeger_storage_v1::GetOperationsResponse>(b, via),
    "jaeger_storage_v1::SpansResponseChunk" => f::<protos::jaeger_storage_v1::SpansResponseChunk>(b, via),
    "jaeger_storage_v1::FindTraceIDsResponse" => f::<protos::jaeger_storage_v1::FindTraceIDsResponse>(b, via),
    "jaeger_storage_v1::CapabilitiesRequest" => f::<protos::jaeger_storage_v1::CapabilitiesRequest>(b, via),
    "jaeger_storage_v1::CapabilitiesResponse" => f::<protos::jaeger_storage_v1::CapabilitiesResponse>(b, via),
    "common::AnyValue" => f::<protos::common::AnyValue>(b, via),
    "common::ArrayValue" => f::<protos::common::ArrayValue>(b, via),
    "common::KeyValueList" => f::<protos::common::KeyValueList>(b, via),
    "common::KeyValue" => f::<protos::common::KeyValue>(b, via),
    "common::InstrumentationScope" => f::<protos::common::InstrumentationScope>(b, via),
    "resource::Resource" => f::<protos::resource::Resource>(b, via),
    "trace::TracesData" => f::<protos::trace::TracesData>(b, via),
    "trace::ResourceSpans" => f::<protos::trace::ResourceSpans>(b, via),
    "trace::ScopeSpans" => f::<protos::trace::ScopeSpans>(b, via),
    "trace::span::Event" => f::<protos::trace::span::Event>(b, via),
    "trace::span::Link" => f::<protos::trace::span::Link>(b, via),
    "trace::Span" => f::<protos::trace::Span>(b, via),
    "trace::Status" => f::<protos::trace::Status>(b, via),
    "trace_service::ExportTraceServiceRequest" => f::<protos::trace_service::ExportTraceServiceRequest>(b, via),
    "trace_service::ExportTraceServiceResponse" => f::<protos::trace_service::ExportTraceServiceResponse>(b, via),
    "trace_service::ExportTracePartialSuccess" => f::<protos::trace_service::ExportTracePartialSuccess>(b, via),
    "prometheus::MetricMetadata" => f::<protos::prompb::prometheus::MetricMetadata>(b, via),
    "prometheus::Sample" => f::<protos::prompb::prometheus::Sample>(b, via),
    "prometheus::Exemplar" => f::<protos::prompb::prometheus::Exemplar>(b, via),
    "prometheus::Histogram" => f::<protos::prompb::prometheus::Histogram>(b, via),
    "prometheus::BucketSpan" => f::<protos::prompb::prometheus::BucketSpan>(b, via),
    "prometheus::TimeSeries" => f::<protos::prompb::prometheus::TimeSeries>(b, via),
    "prometheus::Label" => f::<protos::prompb::prometheus::Label>(b, via),
    "prometheus::Labels" => f::<protos::prompb::prometheus::Labels>(b, via),
    "prometheus::LabelMatcher" => f::<protos::prompb::prometheus::LabelMatcher>(b, via),
    "prometheus::ReadHints" => f::<protos::prompb::prometheus::ReadHints>(b, via),
    "prometheus::Chunk" => f::<protos::prompb::prometheus::Chunk>(b, via),
    "prometheus::ChunkedSeries" => f::<protos::prompb::prometheus::ChunkedSeries>(b, via),
    "prometheus::WriteRequest" => f::<protos::prompb::prometheus::WriteRequest>(b, via),
    "prometheus::ReadRequest" => f::<protos::prompb::prometheus::ReadRequest>(b, via),
    "prometheus::ReadResponse" => f::<protos::prompb::prometheus::ReadResponse>(b, via),
    "prometheus::Query" => f::<protos::prompb::prometheus::Query>(b, via),
    "prometheus::QueryResult" => f::<protos::prompb::prometheus::QueryResult>(b, via),
    "prometheus::ChunkedReadResponse" => f::<protos::prompb::prometheus::ChunkedReadResponse>(b, via),
    _ => panic!("HARNESS: type {ty}"),
} }
