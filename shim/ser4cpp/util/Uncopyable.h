#ifndef SER4CPP_UTIL_UNCOPYABLE_H
#define SER4CPP_UTIL_UNCOPYABLE_H
namespace ser4cpp
{
class Uncopyable
{
protected:
    Uncopyable() = default;
    ~Uncopyable() = default;
public:
    Uncopyable(const Uncopyable&) = delete;
    Uncopyable& operator=(const Uncopyable&) = delete;
};
}
#endif
