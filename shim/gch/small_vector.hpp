// Stand-in for the third-party header that is absent here: same interface as
// used by the code, ordinary storage.  Used only for extraction and harnesses.
#pragma once
#include <cstddef>
#include <memory>
#include <vector>
namespace gch
{
    template <typename T_, unsigned N_ = 4, typename A_ = std::allocator<T_>>
    class small_vector : public std::vector<T_, A_>
    {
    public:
        using std::vector<T_, A_>::vector;
    };
}
