#pragma once
#include <cstdint>
#include <memory>
#include <string_view>
namespace takatori::serializer {
class object_acceptor {
public:
    object_acceptor() = default;
    virtual ~object_acceptor() = default;
    object_acceptor(object_acceptor const&) = delete;
    object_acceptor& operator=(object_acceptor const&) = delete;
    virtual void integer(std::int64_t) = 0;
    virtual void unsigned_integer(std::uint64_t) = 0;
    virtual void real(double) = 0;
    virtual void decimal(std::string_view) = 0;
    virtual void boolean(bool) = 0;
    virtual void string(std::string_view) = 0;
    virtual void pointer(void const*) = 0;
    virtual void struct_begin() = 0;
    virtual void struct_end() = 0;
    virtual void property_begin(std::string_view) = 0;
    virtual void property_end() = 0;
    virtual void array_begin() = 0;
    virtual void array_end() = 0;
};
}
