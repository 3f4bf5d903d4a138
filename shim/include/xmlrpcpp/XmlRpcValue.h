#ifndef SHIM_XMLRPC_VALUE_H
#define SHIM_XMLRPC_VALUE_H
#include <map>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type
  {
    TypeInvalid,
    TypeBoolean,
    TypeInt,
    TypeDouble,
    TypeString,
    TypeDateTime,
    TypeBase64,
    TypeArray,
    TypeStruct
  };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;

  XmlRpcValue()
  {
  }
  XmlRpcValue(bool v)
    : t_(TypeBoolean)
    , b_(v)
  {
  }
  XmlRpcValue(int v)
    : t_(TypeInt)
    , i_(v)
  {
  }
  XmlRpcValue(double v)
    : t_(TypeDouble)
    , d_(v)
  {
  }
  XmlRpcValue(const std::string& v)
    : t_(TypeString)
    , s_(v)
  {
  }
  XmlRpcValue(const char* v)
    : t_(TypeString)
    , s_(v)
  {
  }
  XmlRpcValue(const XmlRpcValue& o)
  {
    *this = o;
  }
  XmlRpcValue& operator=(const XmlRpcValue& o)
  {
    if (this == &o)
      return *this;
    t_ = o.t_;
    b_ = o.b_;
    i_ = o.i_;
    d_ = o.d_;
    s_ = o.s_;
    std::unique_ptr<ValueArray> a(o.a_ ? new ValueArray(*o.a_) : nullptr);
    std::unique_ptr<ValueStruct> m(o.m_ ? new ValueStruct(*o.m_) : nullptr);
    a_ = std::move(a);
    m_ = std::move(m);
    return *this;
  }
  XmlRpcValue& operator=(const int& v)
  {
    return *this = XmlRpcValue(v);
  }
  XmlRpcValue& operator=(const double& v)
  {
    return *this = XmlRpcValue(v);
  }
  XmlRpcValue& operator=(const bool& v)
  {
    return *this = XmlRpcValue(v);
  }
  XmlRpcValue& operator=(const char* v)
  {
    return *this = XmlRpcValue(v);
  }
  XmlRpcValue& operator=(const std::string& v)
  {
    return *this = XmlRpcValue(v);
  }
  void clear()
  {
    *this = XmlRpcValue();
  }
  bool valid() const
  {
    return t_ != TypeInvalid;
  }
  const Type& getType() const
  {
    return t_;
  }
  int size() const
  {
    if (t_ == TypeArray)
      return a_->size();
    if (t_ == TypeStruct)
      return m_->size();
    if (t_ == TypeString)
      return s_.size();
    throw XmlRpcException("type error");
  }
  void setSize(int n)
  {
    makeArray();
    a_->resize(n);
  }
  bool hasMember(const std::string& n) const
  {
    return t_ == TypeStruct && m_->count(n);
  }
  operator bool&()
  {
    need(TypeBoolean);
    return b_;
  }
  operator int&()
  {
    need(TypeInt);
    return i_;
  }
  operator double&()
  {
    need(TypeDouble);
    return d_;
  }
  operator std::string&()
  {
    need(TypeString);
    return s_;
  }
  operator const bool&() const
  {
    cneed(TypeBoolean);
    return b_;
  }
  operator const int&() const
  {
    cneed(TypeInt);
    return i_;
  }
  operator const double&() const
  {
    cneed(TypeDouble);
    return d_;
  }
  operator const std::string&() const
  {
    cneed(TypeString);
    return s_;
  }
  XmlRpcValue& operator[](int i)
  {
    makeArray();
    if (i >= static_cast<int>(a_->size()))
      a_->resize(i + 1);
    return a_->at(i);
  }
  const XmlRpcValue& operator[](int i) const
  {
    cneed(TypeArray);
    return a_->at(i);
  }
  XmlRpcValue& operator[](const std::string& k)
  {
    makeStruct();
    return (*m_)[k];
  }
  XmlRpcValue& operator[](const char* k)
  {
    return (*this)[std::string(k)];
  }
  const XmlRpcValue& operator[](const std::string& k) const
  {
    cneed(TypeStruct);
    auto it = m_->find(k);
    if (it == m_->end())
      throw XmlRpcException("missing member " + k);
    return it->second;
  }
  const XmlRpcValue& operator[](const char* k) const
  {
    return (*this)[std::string(k)];
  }
  iterator begin()
  {
    cneed(TypeStruct);
    return m_->begin();
  }
  iterator end()
  {
    cneed(TypeStruct);
    return m_->end();
  }
  const_iterator begin() const
  {
    cneed(TypeStruct);
    return m_->begin();
  }
  const_iterator end() const
  {
    cneed(TypeStruct);
    return m_->end();
  }
  // enough of the wire form for arrays, structs and scalars
  bool fromXml(const std::string& x, int* off)
  {
    size_t p = *off;
    const bool r = parse(x, p);
    *off = static_cast<int>(p);
    return r;
  }
  static bool tag(const std::string& x, size_t& p, const char* t)
  {
    while (p < x.size() && isspace(static_cast<unsigned char>(x[p])))
      p++;
    const std::string s(t);
    if (x.compare(p, s.size(), s) != 0)
      return false;
    p += s.size();
    return true;
  }
  bool parse(const std::string& x, size_t& p)
  {
    clear();
    if (!tag(x, p, "<value>"))
      return false;
    if (tag(x, p, "<array>"))
    {
      if (!tag(x, p, "<data>"))
        return false;
      int n = 0;
      setSize(0);
      while (!tag(x, p, "</data>"))
      {
        XmlRpcValue e;
        if (!e.parse(x, p))
          return false;
        setSize(n + 1);
        (*this)[n++] = e;
      }
      return tag(x, p, "</array>") && tag(x, p, "</value>");
    }
    const char* const k[] = {"double", "int", "i4", "boolean", "string"};
    for (int i = 0; i < 5; i++)
    {
      const std::string o = std::string("<") + k[i] + ">", c = std::string("</") + k[i] + ">";
      if (!tag(x, p, o.c_str()))
        continue;
      const size_t e = x.find(c, p);
      if (e == std::string::npos)
        return false;
      const std::string v = x.substr(p, e - p);
      p = e + c.size();
      if (i == 0)
        *this = XmlRpcValue(atof(v.c_str()));
      else if (i < 3)
        *this = XmlRpcValue(atoi(v.c_str()));
      else if (i == 3)
        *this = XmlRpcValue(atoi(v.c_str()) != 0);
      else
        *this = XmlRpcValue(v);
      return tag(x, p, "</value>");
    }
    return false;
  }
  std::string toXml() const
  {
    std::stringstream s;
    write(s);
    return s.str();
  }
  std::ostream& write(std::ostream& o) const
  {
    switch (t_)
    {
      case TypeBoolean:
        return o << b_;
      case TypeInt:
        return o << i_;
      case TypeDouble:
        return o << d_;
      case TypeString:
        return o << s_;
      case TypeArray:
        o << "{";
        for (auto& v : *a_)
          v.write(o) << ",";
        return o << "}";
      case TypeStruct:
        o << "[";
        for (auto& v : *m_)
          v.second.write(o << v.first << ":") << ",";
        return o << "]";
      default:
        return o;
    }
  }

private:
  void need(Type t)
  {
    // as xmlrpcpp: an invalid value becomes one of the type asked for
    if (t_ == TypeInvalid)
      t_ = t;
    else if (t_ != t)
      throw XmlRpcException("type error");
  }
  void cneed(Type t) const
  {
    if (t_ != t)
      throw XmlRpcException("type error");
  }
  void makeArray()
  {
    if (t_ == TypeInvalid)
    {
      t_ = TypeArray;
      a_.reset(new ValueArray());
    }
    else if (t_ != TypeArray)
      throw XmlRpcException("type error: expected an array");
  }
  void makeStruct()
  {
    if (t_ == TypeInvalid)
    {
      t_ = TypeStruct;
      m_.reset(new ValueStruct());
    }
    else if (t_ != TypeStruct)
      throw XmlRpcException("type error: expected a struct");
  }
  Type t_ = TypeInvalid;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  std::unique_ptr<ValueArray> a_;
  std::unique_ptr<ValueStruct> m_;
};
inline std::ostream& operator<<(std::ostream& o, const XmlRpcValue& v)
{
  return v.write(o);
}
}  // namespace XmlRpc
#endif
