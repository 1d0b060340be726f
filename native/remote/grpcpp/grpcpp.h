// The part of gRPC the engine uses, inside one process: a call reaches the server at once, its
// reply waits in the queue of the client until it is delivered.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#define GPR_ASSERT(x)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(x))                                                                                                      \
            abort();                                                                                                   \
    } while (0)

void vp_proceed(void *tag);

namespace grpc
{
enum StatusCode
{
    OK = 0,
    CANCELLED = 1,
    UNKNOWN = 2,
    INVALID_ARGUMENT = 3,
    DEADLINE_EXCEEDED = 4,
    NOT_FOUND = 5,
    ALREADY_EXISTS = 6,
    PERMISSION_DENIED = 7,
    RESOURCE_EXHAUSTED = 8,
    FAILED_PRECONDITION = 9,
    ABORTED = 10,
    OUT_OF_RANGE = 11,
    UNIMPLEMENTED = 12,
    INTERNAL = 13,
    UNAVAILABLE = 14,
    DATA_LOSS = 15,
    UNAUTHENTICATED = 16
};

class Status
{
  public:
    Status() = default;
    Status(StatusCode code, const std::string &message) : m_code(code), m_message(message)
    {
    }
    bool ok() const
    {
        return m_code == StatusCode::OK;
    }
    StatusCode error_code() const
    {
        return m_code;
    }
    std::string error_message() const
    {
        return m_message;
    }
    static const Status &OK;

  private:
    StatusCode m_code = StatusCode::OK;
    std::string m_message;
};

class ClientContext
{
};
class ServerContext
{
};
template <class T> class ClientReader;
template <class T> class ClientWriter;
template <class T, class U> class ClientReaderWriter;

class CompletionQueue
{
  public:
    CompletionQueue() = default;
    CompletionQueue(CompletionQueue &&o) : arrived(std::move(o.arrived))
    {
    }
    bool Next(void **tag, bool *ok)
    {
        if (arrived.empty())
            return false;
        *tag = arrived.back();
        arrived.pop_back();
        *ok = true;
        return true;
    }
    void Shutdown()
    {
    }
    std::vector<void *> arrived;
};
class ServerCompletionQueue : public CompletionQueue
{
};

// Replies on their way.
struct vp_flight
{
    CompletionQueue *queue;
    void *tag;
};
extern std::vector<vp_flight> *vp_flights;

class Service
{
  public:
    virtual ~Service() = default;
    virtual const char *vp_name() const
    {
        return "";
    }
    virtual void vp_handle(int method, const void *request, void *reply, Status *status)
    {
        abort();
    }
};

class Channel
{
  public:
    explicit Channel(std::vector<Service *> services) : m_services(std::move(services))
    {
    }
    void call(const char *service, int method, const void *request, void *reply, Status *status)
    {
        for (auto *s : m_services)
            if (std::string(s->vp_name()) == service)
            {
                s->vp_handle(method, request, reply, status);
                return;
            }
        *status = Status(StatusCode::UNIMPLEMENTED, "");
    }

  private:
    std::vector<Service *> m_services;
};
using ChannelInterface = Channel;

template <class Reply> class ClientAsyncResponseReader
{
  public:
    ClientAsyncResponseReader(std::shared_ptr<Channel> channel, const char *service, int method,
                              std::shared_ptr<const void> request, CompletionQueue *queue)
        : m_channel(std::move(channel)), m_service(service), m_method(method), m_request(std::move(request)),
          m_queue(queue)
    {
    }
    void StartCall()
    {
        m_started = true;
    }
    void Finish(Reply *reply, Status *status, void *tag)
    {
        if (!m_started)
            abort();
        m_channel->call(m_service, m_method, m_request.get(), reply, status);
        vp_flights->push_back({m_queue, tag});
    }

  private:
    std::shared_ptr<Channel> m_channel;
    const char *m_service;
    int m_method;
    std::shared_ptr<const void> m_request;
    CompletionQueue *m_queue;
    bool m_started = false;
};

template <class Reply> class ServerAsyncResponseWriter
{
  public:
    explicit ServerAsyncResponseWriter(ServerContext *)
    {
    }
    void Finish(const Reply &reply, const Status &status, void *)
    {
        if (status.ok())
            *static_cast<Reply *>(vp_reply) = reply;
        *vp_status = status;
        *vp_done = true;
    }
    void *vp_reply = nullptr;
    Status *vp_status = nullptr;
    bool *vp_done = nullptr;
};

template <class Request, class Reply> struct vp_slot
{
    Request *request;
    ServerAsyncResponseWriter<Reply> *writer;
    void *tag;
};
template <class Request, class Reply> class vp_slots
{
  public:
    void add(Request *request, ServerAsyncResponseWriter<Reply> *writer, void *tag)
    {
        m_slots.push_back({request, writer, tag});
    }
    void handle(const void *request, void *reply, Status *status)
    {
        // Nobody asked for requests of this kind: the caller would wait forever.
        if (m_slots.empty())
            abort();
        auto slot = m_slots.front();
        m_slots.erase(m_slots.begin());
        bool done = false;
        *slot.request = *static_cast<const Request *>(request);
        slot.writer->vp_reply = reply;
        slot.writer->vp_status = status;
        slot.writer->vp_done = &done;
        vp_proceed(slot.tag);
        if (!done)
            abort();
        vp_proceed(slot.tag);
    }

  private:
    std::vector<vp_slot<Request, Reply>> m_slots;
};

class ChannelArguments
{
  public:
    void SetMaxReceiveMessageSize(int)
    {
    }
    void SetInt(const std::string &, int)
    {
    }
    void SetString(const std::string &, const std::string &)
    {
    }
};
struct ChannelCredentials
{
};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials()
{
    return std::make_shared<ChannelCredentials>();
}
struct SslCredentialsOptions
{
    std::string pem_root_certs;
};
inline std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions &)
{
    return std::make_shared<ChannelCredentials>();
}
std::shared_ptr<Channel> CreateCustomChannel(const std::string &target, const std::shared_ptr<ChannelCredentials> &,
                                             const ChannelArguments &);
class Server
{
  public:
    explicit Server(std::vector<Service *> services) : m_services(std::move(services))
    {
    }
    void Shutdown()
    {
    }
    std::shared_ptr<Channel> InProcessChannel(const ChannelArguments &)
    {
        return std::make_shared<Channel>(m_services);
    }

  private:
    std::vector<Service *> m_services;
};

struct ServerCredentials
{
};
inline std::shared_ptr<ServerCredentials> InsecureServerCredentials()
{
    return std::make_shared<ServerCredentials>();
}
struct SslServerCredentialsOptions
{
    struct PemKeyCertPair
    {
        std::string private_key;
        std::string cert_chain;
    };
    std::string pem_root_certs;
    std::vector<PemKeyCertPair> pem_key_cert_pairs;
};
inline std::shared_ptr<ServerCredentials> SslServerCredentials(const SslServerCredentialsOptions &)
{
    return std::make_shared<ServerCredentials>();
}
inline void EnableDefaultHealthCheckService(bool)
{
}
class ServerBuilder
{
  public:
    ServerBuilder &SetMaxReceiveMessageSize(int)
    {
        return *this;
    }
    ServerBuilder &AddListeningPort(const std::string &, std::shared_ptr<ServerCredentials>, int * = nullptr)
    {
        return *this;
    }
    ServerBuilder &RegisterService(Service *s)
    {
        m_services.push_back(s);
        return *this;
    }
    std::unique_ptr<ServerCompletionQueue> AddCompletionQueue(bool = true)
    {
        return std::make_unique<ServerCompletionQueue>();
    }
    std::unique_ptr<Server> BuildAndStart()
    {
        return std::make_unique<Server>(m_services);
    }

  private:
    std::vector<Service *> m_services;
};
} // namespace grpc

// Fields of messages.
namespace google::protobuf
{
template <class T> class RepeatedField
{
  public:
    using value_type = T;
    using iterator = T *;
    using const_iterator = const T *;
    RepeatedField() = default;
    RepeatedField(const RepeatedField &) = default;
    RepeatedField &operator=(const RepeatedField &) = default;
    RepeatedField(RepeatedField &&) = default;
    RepeatedField &operator=(RepeatedField &&) = default;
    template <class I> RepeatedField(I first, I last) : m_items(first, last)
    {
    }
    int size() const
    {
        return int(m_items.size());
    }
    bool empty() const
    {
        return m_items.empty();
    }
    const T *data() const
    {
        return m_items.data();
    }
    T *mutable_data()
    {
        return m_items.data();
    }
    T *begin()
    {
        return m_items.data();
    }
    T *end()
    {
        return m_items.data() + m_items.size();
    }
    const T *begin() const
    {
        return m_items.data();
    }
    const T *end() const
    {
        return m_items.data() + m_items.size();
    }
    const T *cbegin() const
    {
        return begin();
    }
    const T *cend() const
    {
        return end();
    }
    const T &operator[](int i) const
    {
        return m_items.data()[i];
    }
    T &operator[](int i)
    {
        return m_items.data()[i];
    }
    const T &Get(int i) const
    {
        return m_items.data()[i];
    }
    T *Mutable(int i)
    {
        return m_items.data() + i;
    }
    T &at(int i)
    {
        if (i < 0 || i >= size())
            abort();
        return m_items[i];
    }
    const T &at(int i) const
    {
        if (i < 0 || i >= size())
            abort();
        return m_items[i];
    }
    void Set(int i, const T &v)
    {
        m_items.data()[i] = v;
    }
    void Add(T v)
    {
        m_items.push_back(v);
    }
    template <class I> void Add(I first, I last)
    {
        m_items.insert(m_items.end(), first, last);
    }
    void Resize(int n, const T &v)
    {
        m_items.resize(n, v);
    }
    void Truncate(int n)
    {
        m_items.resize(n);
    }
    void Reserve(int n)
    {
        m_items.reserve(n);
    }
    void Clear()
    {
        m_items.clear();
    }
    template <class I> void Assign(I first, I last)
    {
        m_items.assign(first, last);
    }
    void RemoveLast()
    {
        m_items.pop_back();
    }
    void CopyFrom(const RepeatedField &other)
    {
        m_items = other.m_items;
    }
    void MergeFrom(const RepeatedField &other)
    {
        Add(other.begin(), other.end());
    }
    void Swap(RepeatedField *other)
    {
        m_items.swap(other->m_items);
    }
    int Capacity() const
    {
        return int(m_items.capacity());
    }

  private:
    std::vector<T> m_items;
};
template <class T> class RepeatedPtrField : public RepeatedField<T>
{
};
} // namespace google::protobuf
