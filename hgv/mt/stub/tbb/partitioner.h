#pragma once
namespace tbb { struct auto_partitioner {}; struct simple_partitioner {}; struct static_partitioner {}; struct affinity_partitioner {}; }
