#pragma once
#include <boost/interprocess/sync/named_sync.hpp>
