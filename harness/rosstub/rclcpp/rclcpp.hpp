// Stands in for ROS 2: the part of rclcpp that a node of parameters, topics and timers needs.
// Parameters come from $ROS_STUB_PARAMS (JSON, nested by dots), rclcpp::spin plays the
// messages of $ROS_STUB_PLAY (one JSON object per line) and ends.
#ifndef ROSSTUB_RCLCPP_HPP_
#define ROSSTUB_RCLCPP_HPP_
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>
#define RCLCPP_SHARED_PTR_DEFINITIONS(T) \
  using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; \
  using UniquePtr = std::unique_ptr<T>;

namespace rosstub
{
// a parameter's value as given from outside; text of a JSON value
bool Given(const std::string & name, std::string & value);
std::variant<bool, int64_t, double, std::string, std::vector<int64_t>, std::vector<double>, std::vector<std::string>,
  std::vector<bool>> Parse(const std::string & text, size_t like);
void Subscribe(const std::string & topic, const std::type_info & type, std::function<void(std::shared_ptr<void>)> f);
void Published(const std::string & topic, const std::type_info & type, const void * msg);
void Timer(std::function<void()> f);
void Play();
}  // namespace rosstub

namespace rclcpp
{
namespace exceptions
{
struct InvalidParameterTypeException : std::runtime_error {using runtime_error::runtime_error;};
struct ParameterNotDeclaredException : std::runtime_error {using runtime_error::runtime_error;};
struct ParameterAlreadyDeclaredException : std::runtime_error {using runtime_error::runtime_error;};
}  // namespace exceptions

class Logger
{
public:
  explicit Logger(std::string n = "") : m_name(std::move(n)) {}
  const char * get_name() const {return m_name.c_str();}
  Logger get_child(const std::string & s) const {return Logger(m_name + "." + s);}
private:
  std::string m_name;
};
inline Logger get_logger(const std::string & n) {return Logger(n);}

class ParameterValue
{
public:
  using Value = std::variant<bool, int64_t, double, std::string, std::vector<int64_t>, std::vector<double>,
      std::vector<std::string>, std::vector<bool>>;
  ParameterValue() : v(false) {}
  explicit ParameterValue(Value x) : v(std::move(x)) {}
  template<typename T> static Value Of(const T & x)
  {
    if constexpr (std::is_same_v<T, bool>) {
      return x;
    } else if constexpr (std::is_enum_v<T> || std::is_integral_v<T>) {
      return static_cast<int64_t>(x);
    } else if constexpr (std::is_floating_point_v<T>) {
      return static_cast<double>(x);
    } else if constexpr (std::is_convertible_v<T, std::string>) {
      return std::string(x);
    } else if constexpr (std::is_same_v<T, std::vector<int>>) {
      return std::vector<int64_t>(x.begin(), x.end());
    } else if constexpr (std::is_same_v<T, std::vector<float>>) {
      return std::vector<double>(x.begin(), x.end());
    } else {
      return x;
    }
  }
  template<typename T> T get() const
  {
    if constexpr (std::is_same_v<T, bool>) {return At<bool>();
    } else if constexpr (std::is_integral_v<T>) {return static_cast<T>(At<int64_t>());
    } else if constexpr (std::is_floating_point_v<T>) {return static_cast<T>(At<double>());
    } else {return At<T>();}
  }
  template<typename T> const T & At() const
  {
    const T * p = std::get_if<T>(&v);
    if (p == nullptr) {throw exceptions::InvalidParameterTypeException("parameter of another type");}
    return *p;
  }
  Value v;
};

class Parameter
{
public:
  Parameter() {}
  explicit Parameter(std::string n) : m_name(std::move(n)) {}
  template<typename T> Parameter(std::string n, const T & x) : m_name(std::move(n)), m_value(ParameterValue::Of(x)) {}
  Parameter(std::string n, const ParameterValue & x) : m_name(std::move(n)), m_value(x) {}
  const std::string & get_name() const {return m_name;}
  const ParameterValue & get_parameter_value() const {return m_value;}
  template<typename T> T get_value() const {return m_value.get<T>();}
  bool as_bool() const {return m_value.At<bool>();}
  int64_t as_int() const {return m_value.At<int64_t>();}
  double as_double() const {return m_value.At<double>();}
  const std::string & as_string() const {return m_value.At<std::string>();}
  const std::vector<int64_t> & as_integer_array() const {return m_value.At<std::vector<int64_t>>();}
  const std::vector<double> & as_double_array() const {return m_value.At<std::vector<double>>();}
  const std::vector<std::string> & as_string_array() const {return m_value.At<std::vector<std::string>>();}
  const std::vector<bool> & as_bool_array() const {return m_value.At<std::vector<bool>>();}
private:
  std::string m_name;
  ParameterValue m_value;
};

template<typename M> class Subscription
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Subscription)
  explicit Subscription(std::string t) : m_topic(std::move(t)) {}
  const char * get_topic_name() const {return m_topic.c_str();}
private:
  std::string m_topic;
};
template<typename M> class Publisher
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Publisher)
  explicit Publisher(std::string t) : m_topic(std::move(t)) {}
  void publish(const M & m) {rosstub::Published(m_topic, typeid(M), &m);}
  void publish(std::unique_ptr<M> m) {publish(*m);}
  const char * get_topic_name() const {return m_topic.c_str();}
  size_t get_subscription_count() const {return 1;}
private:
  std::string m_topic;
};
class TimerBase
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(TimerBase)
  void cancel() {}
  void reset() {}
};
template<typename F> class WallTimer : public TimerBase {};
class QoS
{
public:
  QoS(size_t) {}
  QoS & reliable() {return *this;}
  QoS & best_effort() {return *this;}
  QoS & transient_local() {return *this;}
  QoS & keep_last(size_t) {return *this;}
};
struct SensorDataQoS : QoS {SensorDataQoS() : QoS(10) {}};
struct SystemDefaultsQoS : QoS {SystemDefaultsQoS() : QoS(10) {}};
struct NodeOptions {};

class Node : public std::enable_shared_from_this<Node>
{
public:
  RCLCPP_SHARED_PTR_DEFINITIONS(Node)
  explicit Node(std::string n, const NodeOptions & = NodeOptions()) : m_name(std::move(n)) {}
  virtual ~Node() {}
  const char * get_name() const {return m_name.c_str();}
  Logger get_logger() const {return Logger(m_name);}

  template<typename T> auto declare_parameter(const std::string & name, const T & initial)
  {
    if (m_params.count(name)) {throw exceptions::ParameterAlreadyDeclaredException(name);}
    ParameterValue::Value v = ParameterValue::Of(initial);
    std::string text;
    if (rosstub::Given(name, text)) {v = rosstub::Parse(text, v.index());}
    m_params[name] = ParameterValue(v);
    return initial;
  }
  template<typename T> T declare_parameter(const std::string & name)
  {
    declare_parameter(name, T());
    return get_parameter(name).get_value<T>();
  }
  Parameter get_parameter(const std::string & name) const
  {
    auto it = m_params.find(name);
    if (it == m_params.end()) {throw exceptions::ParameterNotDeclaredException(name);}
    return Parameter(name, it->second);
  }
  template<typename T> bool get_parameter(const std::string & name, T & out) const
  {
    if (!has_parameter(name)) {return false;}
    out = get_parameter(name).get_value<T>();
    return true;
  }
  template<typename T> bool get_parameter_or(const std::string & name, T & out, const T & other) const
  {
    if (get_parameter(name, out)) {return true;}
    out = other;
    return false;
  }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & names) const
  {
    std::vector<Parameter> a;
    for (auto & n : names) {a.push_back(get_parameter(n));}
    return a;
  }
  bool has_parameter(const std::string & name) const {return m_params.count(name) > 0;}
  bool set_parameter(const Parameter & p)
  {
    if (!has_parameter(p.get_name())) {throw exceptions::ParameterNotDeclaredException(p.get_name());}
    m_params[p.get_name()] = p.get_parameter_value();
    return true;
  }
  template<typename M, typename F>
  typename Subscription<M>::SharedPtr create_subscription(const std::string & topic, const QoS &, F f)
  {
    rosstub::Subscribe(
      topic, typeid(M), [f](std::shared_ptr<void> p) mutable {
        auto m = std::static_pointer_cast<M>(p);
        if constexpr (std::is_invocable_v<F, std::shared_ptr<M>>) {f(m);
        } else if constexpr (std::is_invocable_v<F, std::unique_ptr<M>>) {f(std::make_unique<M>(*m));
        } else {f(*m);}
      });
    return std::make_shared<Subscription<M>>(topic);
  }
  template<typename M> typename Publisher<M>::SharedPtr create_publisher(const std::string & topic, const QoS &)
  {
    return std::make_shared<Publisher<M>>(topic);
  }
  template<typename D, typename F> TimerBase::SharedPtr create_wall_timer(D, F f)
  {
    rosstub::Timer(f);
    return std::make_shared<WallTimer<F>>();
  }
private:
  std::string m_name;
  std::map<std::string, ParameterValue> m_params;
};

inline void init(int, char const * const *) {}
inline bool ok() {return true;}
inline void shutdown() {}
template<typename N> void spin(N) {rosstub::Play();}

inline void Print(const char * level, const char * format, ...)
{
  va_list a;
  va_start(a, format);
  fprintf(stderr, "[%s]: ", level);
  vfprintf(stderr, format, a);
  fputc('\n', stderr);
  va_end(a);
}
}  // namespace rclcpp
#define ROSSTUB_LOG(level, logger, ...) do {(void)(logger); rclcpp::Print(level, __VA_ARGS__);} while (0)
#define ROSSTUB_STREAM(level, logger, x) do { \
    (void)(logger); std::stringstream rosstub_s; rosstub_s << x; rclcpp::Print(level, "%s", rosstub_s.str().c_str());} while (0)
#define RCLCPP_DEBUG(l, ...) ROSSTUB_LOG("DEBUG", l, __VA_ARGS__)
#define RCLCPP_INFO(l, ...) ROSSTUB_LOG("INFO", l, __VA_ARGS__)
#define RCLCPP_WARN(l, ...) ROSSTUB_LOG("WARN", l, __VA_ARGS__)
#define RCLCPP_ERROR(l, ...) ROSSTUB_LOG("ERROR", l, __VA_ARGS__)
#define RCLCPP_FATAL(l, ...) ROSSTUB_LOG("FATAL", l, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(l, x) ROSSTUB_STREAM("DEBUG", l, x)
#define RCLCPP_INFO_STREAM(l, x) ROSSTUB_STREAM("INFO", l, x)
#define RCLCPP_WARN_STREAM(l, x) ROSSTUB_STREAM("WARN", l, x)
#define RCLCPP_ERROR_STREAM(l, x) ROSSTUB_STREAM("ERROR", l, x)
#define RCLCPP_FATAL_STREAM(l, x) ROSSTUB_STREAM("FATAL", l, x)
#endif  // ROSSTUB_RCLCPP_HPP_
