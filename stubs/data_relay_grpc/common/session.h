#pragma once
namespace data_relay_grpc::common { class blob_session; }
