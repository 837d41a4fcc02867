#pragma once
#include "blocked_range.h"
#include "global_control.h"
#include "parallel_for.h"
#include "parallel_reduce.h"
#include "parallel_sort.h"
#include "partitioner.h"
#include "task.h"
#include "task_scheduler_init.h"
