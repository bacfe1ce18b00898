// Analysed only: brings every header of the analysable subset into one unit.
#if __has_include("jogasaki/api/character_field_option.h")
#include "jogasaki/api/character_field_option.h"
#endif
#if __has_include("jogasaki/api/decimal_field_option.h")
#include "jogasaki/api/decimal_field_option.h"
#endif
#if __has_include("jogasaki/api/error_info.h")
#include "jogasaki/api/error_info.h"
#endif
#if __has_include("jogasaki/api/kvsservice/commit_option.h")
#include "jogasaki/api/kvsservice/commit_option.h"
#endif
#if __has_include("jogasaki/api/kvsservice/put_option.h")
#include "jogasaki/api/kvsservice/put_option.h"
#endif
#if __has_include("jogasaki/api/kvsservice/remove_option.h")
#include "jogasaki/api/kvsservice/remove_option.h"
#endif
#if __has_include("jogasaki/api/kvsservice/transaction_option.h")
#include "jogasaki/api/kvsservice/transaction_option.h"
#endif
#if __has_include("jogasaki/api/kvsservice/transaction_priority.h")
#include "jogasaki/api/kvsservice/transaction_priority.h"
#endif
#if __has_include("jogasaki/api/kvsservice/transaction_state.h")
#include "jogasaki/api/kvsservice/transaction_state.h"
#endif
#if __has_include("jogasaki/api/kvsservice/transaction_type.h")
#include "jogasaki/api/kvsservice/transaction_type.h"
#endif
#if __has_include("jogasaki/api/namespace.h")
#include "jogasaki/api/namespace.h"
#endif
#if __has_include("jogasaki/api/octet_field_option.h")
#include "jogasaki/api/octet_field_option.h"
#endif
#if __has_include("jogasaki/api/time_of_day_field_option.h")
#include "jogasaki/api/time_of_day_field_option.h"
#endif
#if __has_include("jogasaki/api/time_point_field_option.h")
#include "jogasaki/api/time_point_field_option.h"
#endif
#if __has_include("jogasaki/api/writer.h")
#include "jogasaki/api/writer.h"
#endif
#if __has_include("jogasaki/error_code.h")
#include "jogasaki/error_code.h"
#endif
#if __has_include("jogasaki/key_distribution_kind.h")
#include "jogasaki/key_distribution_kind.h"
#endif
#if __has_include("jogasaki/lob/blob_locator.h")
#include "jogasaki/lob/blob_locator.h"
#endif
#if __has_include("jogasaki/lob/blob_reference.h")
#include "jogasaki/lob/blob_reference.h"
#endif
#if __has_include("jogasaki/lob/clob_locator.h")
#include "jogasaki/lob/clob_locator.h"
#endif
#if __has_include("jogasaki/lob/clob_reference.h")
#include "jogasaki/lob/clob_reference.h"
#endif
#if __has_include("jogasaki/lob/lob_data_provider.h")
#include "jogasaki/lob/lob_data_provider.h"
#endif
#if __has_include("jogasaki/lob/lob_id.h")
#include "jogasaki/lob/lob_id.h"
#endif
#if __has_include("jogasaki/lob/lob_locator.h")
#include "jogasaki/lob/lob_locator.h"
#endif
#if __has_include("jogasaki/lob/lob_reference.h")
#include "jogasaki/lob/lob_reference.h"
#endif
#if __has_include("jogasaki/lob/lob_reference_kind.h")
#include "jogasaki/lob/lob_reference_kind.h"
#endif
#if __has_include("jogasaki/logging.h")
#include "jogasaki/logging.h"
#endif
#if __has_include("jogasaki/request_statistics.h")
#include "jogasaki/request_statistics.h"
#endif
#if __has_include("jogasaki/status.h")
#include "jogasaki/status.h"
#endif
#if __has_include("jogasaki/utils/hash_combine.h")
#include "jogasaki/utils/hash_combine.h"
#endif
#if __has_include("jogasaki/utils/split_mix64.h")
#include "jogasaki/utils/split_mix64.h"
#endif
#if __has_include("jogasaki/accessor/binary.h")
#include "jogasaki/accessor/binary.h"
#endif
#if __has_include("jogasaki/accessor/namespace.h")
#include "jogasaki/accessor/namespace.h"
#endif
#if __has_include("jogasaki/accessor/text.h")
#include "jogasaki/accessor/text.h"
#endif
#if __has_include("jogasaki/api/impl/error_info.h")
#include "jogasaki/api/impl/error_info.h"
#endif
#if __has_include("jogasaki/api/impl/map_error_code.h")
#include "jogasaki/api/impl/map_error_code.h"
#endif
#if __has_include("jogasaki/api/kvsservice/mapped_record.h")
#include "jogasaki/api/kvsservice/mapped_record.h"
#endif
#if __has_include("jogasaki/api/kvsservice/status_message.h")
#include "jogasaki/api/kvsservice/status_message.h"
#endif
#if __has_include("jogasaki/callback.h")
#include "jogasaki/callback.h"
#endif
#if __has_include("jogasaki/check_cxx_std.h")
#include "jogasaki/check_cxx_std.h"
#endif
#if __has_include("jogasaki/constants.h")
#include "jogasaki/constants.h"
#endif
#if __has_include("jogasaki/data/aligned_buffer.h")
#include "jogasaki/data/aligned_buffer.h"
#endif
#if __has_include("jogasaki/data/any_sequence_stream_status.h")
#include "jogasaki/data/any_sequence_stream_status.h"
#endif
#if __has_include("jogasaki/data/binary_string_value.h")
#include "jogasaki/data/binary_string_value.h"
#endif
#if __has_include("jogasaki/data/namespace.h")
#include "jogasaki/data/namespace.h"
#endif
#if __has_include("jogasaki/error.h")
#include "jogasaki/error.h"
#endif
#if __has_include("jogasaki/error/error_info.h")
#include "jogasaki/error/error_info.h"
#endif
#if __has_include("jogasaki/executor/batch/batch_execution_state.h")
#include "jogasaki/executor/batch/batch_execution_state.h"
#endif
#if __has_include("jogasaki/executor/batch/batch_executor_option.h")
#include "jogasaki/executor/batch/batch_executor_option.h"
#endif
#if __has_include("jogasaki/executor/common/namespace.h")
#include "jogasaki/executor/common/namespace.h"
#endif
#if __has_include("jogasaki/executor/diagnostic_record.h")
#include "jogasaki/executor/diagnostic_record.h"
#endif
#if __has_include("jogasaki/executor/dto/common_column.h")
#include "jogasaki/executor/dto/common_column.h"
#endif
#if __has_include("jogasaki/executor/dto/common_column_utils.h")
#include "jogasaki/executor/dto/common_column_utils.h"
#endif
#if __has_include("jogasaki/executor/dto/describe_table.h")
#include "jogasaki/executor/dto/describe_table.h"
#endif
#if __has_include("jogasaki/executor/dto/describe_table_utils.h")
#include "jogasaki/executor/dto/describe_table_utils.h"
#endif
#if __has_include("jogasaki/executor/exchange/aggregate/namespace.h")
#include "jogasaki/executor/exchange/aggregate/namespace.h"
#endif
#if __has_include("jogasaki/executor/exchange/forward/namespace.h")
#include "jogasaki/executor/exchange/forward/namespace.h"
#endif
#if __has_include("jogasaki/executor/exchange/group/namespace.h")
#include "jogasaki/executor/exchange/group/namespace.h"
#endif
#if __has_include("jogasaki/executor/exchange/namespace.h")
#include "jogasaki/executor/exchange/namespace.h"
#endif
#if __has_include("jogasaki/executor/file/arrow_reader_column_option.h")
#include "jogasaki/executor/file/arrow_reader_column_option.h"
#endif
#if __has_include("jogasaki/executor/file/time_unit_kind.h")
#include "jogasaki/executor/file/time_unit_kind.h"
#endif
#if __has_include("jogasaki/executor/file/writer_column_option.h")
#include "jogasaki/executor/file/writer_column_option.h"
#endif
#if __has_include("jogasaki/executor/function/table_valued_function_kind.h")
#include "jogasaki/executor/function/table_valued_function_kind.h"
#endif
#if __has_include("jogasaki/executor/io/record_channel_stats.h")
#include "jogasaki/executor/io/record_channel_stats.h"
#endif
#if __has_include("jogasaki/executor/namespace.h")
#include "jogasaki/executor/namespace.h"
#endif
#if __has_include("jogasaki/executor/process/abstract/processor.h")
#include "jogasaki/executor/process/abstract/processor.h"
#endif
#if __has_include("jogasaki/executor/process/abstract/range.h")
#include "jogasaki/executor/process/abstract/range.h"
#endif
#if __has_include("jogasaki/executor/process/abstract/work_context.h")
#include "jogasaki/executor/process/abstract/work_context.h"
#endif
#if __has_include("jogasaki/executor/process/impl/region_id.h")
#include "jogasaki/executor/process/impl/region_id.h"
#endif
#if __has_include("jogasaki/executor/process/namespace.h")
#include "jogasaki/executor/process/namespace.h"
#endif
#if __has_include("jogasaki/executor/sequence/exception.h")
#include "jogasaki/executor/sequence/exception.h"
#endif
#if __has_include("jogasaki/executor/wrt/namespace.h")
#include "jogasaki/executor/wrt/namespace.h"
#endif
#if __has_include("jogasaki/kvs/coding_context.h")
#include "jogasaki/kvs/coding_context.h"
#endif
#if __has_include("jogasaki/logging_helper.h")
#include "jogasaki/logging_helper.h"
#endif
#if __has_include("jogasaki/memory/details/page_allocation_info.h")
#include "jogasaki/memory/details/page_allocation_info.h"
#endif
#if __has_include("jogasaki/memory/fifo_paged_memory_resource.h")
#include "jogasaki/memory/fifo_paged_memory_resource.h"
#endif
#if __has_include("jogasaki/memory/lifo_paged_memory_resource.h")
#include "jogasaki/memory/lifo_paged_memory_resource.h"
#endif
#if __has_include("jogasaki/memory/monotonic_paged_memory_resource.h")
#include "jogasaki/memory/monotonic_paged_memory_resource.h"
#endif
#if __has_include("jogasaki/memory/namespace.h")
#include "jogasaki/memory/namespace.h"
#endif
#if __has_include("jogasaki/memory/page_pool.h")
#include "jogasaki/memory/page_pool.h"
#endif
#if __has_include("jogasaki/memory/paged_memory_resource.h")
#include "jogasaki/memory/paged_memory_resource.h"
#endif
#if __has_include("jogasaki/meta/character_field_option.h")
#include "jogasaki/meta/character_field_option.h"
#endif
#if __has_include("jogasaki/meta/decimal_field_option.h")
#include "jogasaki/meta/decimal_field_option.h"
#endif
#if __has_include("jogasaki/meta/namespace.h")
#include "jogasaki/meta/namespace.h"
#endif
#if __has_include("jogasaki/meta/octet_field_option.h")
#include "jogasaki/meta/octet_field_option.h"
#endif
#if __has_include("jogasaki/meta/time_of_day_field_option.h")
#include "jogasaki/meta/time_of_day_field_option.h"
#endif
#if __has_include("jogasaki/meta/time_point_field_option.h")
#include "jogasaki/meta/time_point_field_option.h"
#endif
#if __has_include("jogasaki/model/namespace.h")
#include "jogasaki/model/namespace.h"
#endif
#if __has_include("jogasaki/model/step_kind.h")
#include "jogasaki/model/step_kind.h"
#endif
#if __has_include("jogasaki/model/task.h")
#include "jogasaki/model/task.h"
#endif
#if __has_include("jogasaki/namespace.h")
#include "jogasaki/namespace.h"
#endif
#if __has_include("jogasaki/plan/plan_exception.h")
#include "jogasaki/plan/plan_exception.h"
#endif
#if __has_include("jogasaki/scheduler/details/thread.h")
#include "jogasaki/scheduler/details/thread.h"
#endif
#if __has_include("jogasaki/scheduler/hybrid_execution_mode.h")
#include "jogasaki/scheduler/hybrid_execution_mode.h"
#endif
#if __has_include("jogasaki/scheduler/namespace.h")
#include "jogasaki/scheduler/namespace.h"
#endif
#if __has_include("jogasaki/scheduler/step_state.h")
#include "jogasaki/scheduler/step_state.h"
#endif
#if __has_include("jogasaki/scheduler/thread_info.h")
#include "jogasaki/scheduler/thread_info.h"
#endif
#if __has_include("jogasaki/scheduler/thread_local_info.h")
#include "jogasaki/scheduler/thread_local_info.h"
#endif
#if __has_include("jogasaki/serializer/details/value_io_constants.h")
#include "jogasaki/serializer/details/value_io_constants.h"
#endif
#if __has_include("jogasaki/serializer/entry_type.h")
#include "jogasaki/serializer/entry_type.h"
#endif
#if __has_include("jogasaki/serializer/namespace.h")
#include "jogasaki/serializer/namespace.h"
#endif
#if __has_include("jogasaki/serializer/value_input_exception.h")
#include "jogasaki/serializer/value_input_exception.h"
#endif
#if __has_include("jogasaki/storage/maintenance_storage.h")
#include "jogasaki/storage/maintenance_storage.h"
#endif
#if __has_include("jogasaki/udf/bridge/udf_special_records.h")
#include "jogasaki/udf/bridge/udf_special_records.h"
#endif
#if __has_include("jogasaki/udf/data/udf_semantic_type.h")
#include "jogasaki/udf/data/udf_semantic_type.h"
#endif
#if __has_include("jogasaki/udf/descriptor/descriptor_analyzer.h")
#include "jogasaki/udf/descriptor/descriptor_analyzer.h"
#endif
#if __has_include("jogasaki/udf/descriptor/descriptor_reader.h")
#include "jogasaki/udf/descriptor/descriptor_reader.h"
#endif
#if __has_include("jogasaki/udf/descriptor/validation/message_duplicate_validator.h")
#include "jogasaki/udf/descriptor/validation/message_duplicate_validator.h"
#endif
#if __has_include("jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h")
#include "jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h"
#endif
#if __has_include("jogasaki/udf/descriptor_impl.h")
#include "jogasaki/udf/descriptor_impl.h"
#endif
#if __has_include("jogasaki/udf/enum_types.h")
#include "jogasaki/udf/enum_types.h"
#endif
#if __has_include("jogasaki/udf/error_info.h")
#include "jogasaki/udf/error_info.h"
#endif
#if __has_include("jogasaki/udf/generic_client.h")
#include "jogasaki/udf/generic_client.h"
#endif
#if __has_include("jogasaki/udf/generic_client_context.h")
#include "jogasaki/udf/generic_client_context.h"
#endif
#if __has_include("jogasaki/udf/generic_client_factory.h")
#include "jogasaki/udf/generic_client_factory.h"
#endif
#if __has_include("jogasaki/udf/generic_record.h")
#include "jogasaki/udf/generic_record.h"
#endif
#if __has_include("jogasaki/udf/generic_record_impl.h")
#include "jogasaki/udf/generic_record_impl.h"
#endif
#if __has_include("jogasaki/udf/log/logging_prefix.h")
#include "jogasaki/udf/log/logging_prefix.h"
#endif
#if __has_include("jogasaki/udf/plugin_api.h")
#include "jogasaki/udf/plugin_api.h"
#endif
#if __has_include("jogasaki/udf/plugin_loader.h")
#include "jogasaki/udf/plugin_loader.h"
#endif
#if __has_include("jogasaki/udf/udf_config.h")
#include "jogasaki/udf/udf_config.h"
#endif
#if __has_include("jogasaki/udf/udf_loader.h")
#include "jogasaki/udf/udf_loader.h"
#endif
#if __has_include("jogasaki/utils/aligned_unique_ptr.h")
#include "jogasaki/utils/aligned_unique_ptr.h"
#endif
#if __has_include("jogasaki/utils/assign_reference_tag.h")
#include "jogasaki/utils/assign_reference_tag.h"
#endif
#if __has_include("jogasaki/utils/base64_utils.h")
#include "jogasaki/utils/base64_utils.h"
#endif
#if __has_include("jogasaki/utils/base_filename.h")
#include "jogasaki/utils/base_filename.h"
#endif
#if __has_include("jogasaki/utils/binary_printer.h")
#include "jogasaki/utils/binary_printer.h"
#endif
#if __has_include("jogasaki/utils/checkpoint_holder.h")
#include "jogasaki/utils/checkpoint_holder.h"
#endif
#if __has_include("jogasaki/utils/convert_control_characters.h")
#include "jogasaki/utils/convert_control_characters.h"
#endif
#if __has_include("jogasaki/utils/convert_offset_string.h")
#include "jogasaki/utils/convert_offset_string.h"
#endif
#if __has_include("jogasaki/utils/fail.h")
#include "jogasaki/utils/fail.h"
#endif
#if __has_include("jogasaki/utils/hex.h")
#include "jogasaki/utils/hex.h"
#endif
#if __has_include("jogasaki/utils/hex_to_octet.h")
#include "jogasaki/utils/hex_to_octet.h"
#endif
#if __has_include("jogasaki/utils/interference_size.h")
#include "jogasaki/utils/interference_size.h"
#endif
#if __has_include("jogasaki/utils/latch.h")
#include "jogasaki/utils/latch.h"
#endif
#if __has_include("jogasaki/utils/line_number_string.h")
#include "jogasaki/utils/line_number_string.h"
#endif
#if __has_include("jogasaki/utils/map_schema_name.h")
#include "jogasaki/utils/map_schema_name.h"
#endif
#if __has_include("jogasaki/utils/performance_tools.h")
#include "jogasaki/utils/performance_tools.h"
#endif
#if __has_include("jogasaki/utils/proto_debug_string.h")
#include "jogasaki/utils/proto_debug_string.h"
#endif
#if __has_include("jogasaki/utils/random.h")
#include "jogasaki/utils/random.h"
#endif
#if __has_include("jogasaki/utils/read_lob_file.h")
#include "jogasaki/utils/read_lob_file.h"
#endif
#if __has_include("jogasaki/utils/round.h")
#include "jogasaki/utils/round.h"
#endif
#if __has_include("jogasaki/utils/sanitize_utf8.h")
#include "jogasaki/utils/sanitize_utf8.h"
#endif
#if __has_include("jogasaki/utils/storage_metadata_exception.h")
#include "jogasaki/utils/storage_metadata_exception.h"
#endif
#if __has_include("jogasaki/utils/string_manipulation.h")
#include "jogasaki/utils/string_manipulation.h"
#endif
#if __has_include("jogasaki/utils/string_utils.h")
#include "jogasaki/utils/string_utils.h"
#endif
#if __has_include("jogasaki/utils/subtract_vectors.h")
#include "jogasaki/utils/subtract_vectors.h"
#endif
#if __has_include("jogasaki/utils/surrogate_id_utils.h")
#include "jogasaki/utils/surrogate_id_utils.h"
#endif
#if __has_include("jogasaki/utils/to_string.h")
#include "jogasaki/utils/to_string.h"
#endif
#if __has_include("jogasaki/utils/trace_log.h")
#include "jogasaki/utils/trace_log.h"
#endif
#if __has_include("jogasaki/utils/use_counter.h")
#include "jogasaki/utils/use_counter.h"
#endif
#if __has_include("jogasaki/utils/utf8_utils.h")
#include "jogasaki/utils/utf8_utils.h"
#endif
#if __has_include("jogasaki/utils/variant.h")
#include "jogasaki/utils/variant.h"
#endif
#if __has_include("jogasaki/utils/waitable_atomic.h")
#include "jogasaki/utils/waitable_atomic.h"
#endif
#if __has_include("jogasaki/utils/watch.h")
#include "jogasaki/utils/watch.h"
#endif
