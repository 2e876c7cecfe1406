// Resource trees as JSON.
#pragma once
#include "dirs.h"
namespace drv
{
J dir_json(const resource_directory& d);
J ent_json(const resource_directory_entry& e);
resource_directory dir_of(const J& a);
// records the tree after the operation, also when it throws
struct Tr { resource_directory& d; J& r; Tr(resource_directory& d_, J& r_) : d(d_), r(r_) {} ~Tr() { r.set("tr", dir_json(d)); } };
}
