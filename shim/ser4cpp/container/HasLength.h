#ifndef SER4CPP_CONTAINER_HASLENGTH_H
#define SER4CPP_CONTAINER_HASLENGTH_H
namespace ser4cpp
{
template<class L>
class HasLength
{
public:
    L length() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }
protected:
    explicit HasLength(L length) : m_length(length) {}
    L m_length;
};
}
#endif
