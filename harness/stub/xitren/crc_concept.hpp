// Stand-in for the header of another project that xitren/func/packet.hpp includes and, apart from
// the inclusion, does not use.
#pragma once
