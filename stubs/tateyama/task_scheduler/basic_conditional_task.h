#pragma once
namespace tateyama::task_scheduler { class basic_conditional_task {}; }
