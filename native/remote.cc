// Entry points for the checks that go through the interface for Python: the graph is either in the
// process or behind a client of servers in the same process.
#include "src/cc/lib/py_graph.cc"

#include <cstring>

#include "src/cc/lib/distributed/call_data.h"
#include "src/cc/lib/distributed/server.h"
#include "src/cc/lib/graph/sampler.h"

using namespace deep_graph::python;
using snark::Metadata;

namespace grpc
{
static const Status vp_ok;
const Status &Status::OK = vp_ok;
static std::vector<vp_flight> vp_flying;
std::vector<vp_flight> *vp_flights = &vp_flying;
} // namespace grpc

static std::vector<std::function<void()>> vp_threads;
static std::vector<std::shared_ptr<grpc::Channel>> vp_channels;

int std::vp_thread::add(std::function<void()> f)
{
    vp_threads.push_back(std::move(f));
    return int(vp_threads.size()) - 1;
}

void std::vp_thread::join()
{
    if (m_at >= 0)
        vp_threads[m_at] = nullptr;
    m_at = -1;
}

// One of the replies on their way arrives and is processed.
void vp_deliver()
{
    auto &flying = *grpc::vp_flights;
    if (flying.empty())
        abort();
    size_t pick = flying.size() > 1 ? size_t(vp_draw_order(int64_t(flying.size()))) : 0;
    auto f = flying[pick];
    flying.erase(flying.begin() + pick);
    f.queue->arrived.push_back(f.tag);
    for (size_t i = 0; i < vp_threads.size(); ++i)
        if (vp_threads[i])
            vp_threads[i]();
}

void vp_proceed(void *tag)
{
    static_cast<snark::CallData *>(tag)->Proceed();
}

std::shared_ptr<grpc::Channel> grpc::CreateCustomChannel(const std::string &target,
                                                         const std::shared_ptr<ChannelCredentials> &,
                                                         const ChannelArguments &)
{
    return vp_channels[size_t(target[0] - '0')];
}

// The arguments of a query, in the form every entry point has them.
struct Served
{
    PyGraph graph;
    std::vector<std::unique_ptr<snark::GRPCServer>> servers;
};

static PyGraph *graph(void *g)
{
    return &static_cast<Served *>(g)->graph;
}

template <class T> static T *maybe(uint64_t n, const T *data)
{
    return n == 0 ? nullptr : const_cast<T *>(data);
}

static Metadata describe(const char *path, uint64_t partitions, uint64_t node_types, uint64_t edge_types,
                         uint64_t node_features, uint64_t edge_features, int64_t watermark, uint64_t rows,
                         const float *node_weights, const float *edge_weights)
{
    Metadata m;
    m.m_version = snark::MINIMUM_SUPPORTED_VERSION;
    m.m_node_count = 0;
    m.m_edge_count = 0;
    m.m_edge_type_count = edge_types;
    m.m_node_type_count = node_types;
    m.m_node_feature_count = node_features;
    m.m_edge_feature_count = edge_features;
    m.m_partition_count = partitions;
    m.m_path = path;
    m.m_watermark = watermark;
    for (uint64_t i = 0; i < rows; ++i)
    {
        m.m_partition_node_weights.emplace_back(node_weights + i * node_types, node_weights + (i + 1) * node_types);
        m.m_partition_edge_weights.emplace_back(edge_weights + i * edge_types, edge_weights + (i + 1) * edge_types);
    }
    return m;
}

struct Kept
{
    uint64_t room;
    NodeID *ids;
    Type *types;
    float *weights;
    Timestamp *ts;
    uint64_t *sizes;
    uint8_t *bytes;
    int64_t *indices;
    int64_t *dims;
    uint64_t features;
};
static Kept kept;

template <class T> static void keep(const T *from, uint64_t n, T *to)
{
    for (uint64_t i = 0; i < n && i < kept.room; ++i)
        to[i] = from[i];
}

static void keep_neighbors(const NodeID *ids, const float *weights, const Type *types, const Timestamp *ts, size_t n)
{
    kept.sizes[0] = kept.sizes[1] = kept.sizes[2] = n;
    keep(ids, n, kept.ids);
    keep(types, n, kept.types);
    keep(weights, n, kept.weights);
    kept.sizes[3] = kept.ts ? n : 0;
    if (kept.ts)
        keep(ts, n, kept.ts);
}

static void keep_string(size_t n, const uint8_t *data)
{
    kept.sizes[0] = n;
    keep(data, n, kept.bytes);
}

static void keep_sparse(const int64_t **indices, size_t *index_sizes, const uint8_t **data, size_t *data_sizes,
                        int64_t *dims)
{
    for (uint64_t f = 0; f < kept.features; ++f)
    {
        kept.sizes[2 * f] = index_sizes[f];
        kept.sizes[2 * f + 1] = data_sizes[f];
        keep(indices[f], index_sizes[f], kept.indices + f * kept.room);
        keep(data[f], data_sizes[f], kept.bytes + f * kept.room);
        kept.dims[f] = dims[f];
    }
}

static std::vector<int32_t> pairs(uint64_t nf, const int32_t *ids, const uint32_t *sizes)
{
    std::vector<int32_t> r;
    for (uint64_t i = 0; i < nf; ++i)
    {
        r.push_back(ids[i]);
        r.push_back(int32_t(sizes[i]));
    }
    return r;
}

extern "C"
{
    // servers == 0: the graph is in the process; otherwise owner[i] is the server of partitions[i]. A server
    // without partitions has no graph (bare & 1) or no samplers (bare & 2) if asked so.
    void *vp_r_open(const char *path, uint64_t count, const uint32_t *partitions, uint64_t servers,
                    const uint32_t *owner, const uint32_t *bare, uint64_t node_types, uint64_t edge_types,
                    uint64_t node_features, uint64_t edge_features, int64_t watermark, int32_t disk, uint64_t rows,
                    const float *node_weights, const float *edge_weights)
    {
        auto meta = describe(path, count, node_types, edge_types, node_features, edge_features, watermark, rows,
                             node_weights, edge_weights);
        auto storage = disk ? snark::PartitionStorageType::disk : snark::PartitionStorageType::memory;
        auto s = new Served();
        s->graph.graph = std::make_unique<GraphInternal>();
        auto &g = *s->graph.graph;
        if (servers == 0)
        {
            std::vector<std::string> paths(count, std::string(path));
            std::vector<size_t> indices(partitions, partitions + count);
            g.graph = std::make_unique<snark::Graph>(meta, paths, std::vector<uint32_t>(partitions, partitions + count),
                                                     storage);
            g.node_sampler_factory[SamplerType::Weighted] =
                std::make_shared<snark::WeightedNodeSamplerFactory>(meta, paths, indices);
            g.node_sampler_factory[SamplerType::Uniform] =
                std::make_shared<snark::UniformNodeSamplerFactory>(meta, paths, indices);
            g.node_sampler_factory[SamplerType::UniformWithoutReplacement] =
                std::make_shared<snark::UniformNodeSamplerFactoryWithoutReplacement>(meta, paths, indices);
            g.edge_sampler_factory[SamplerType::Weighted] =
                std::make_shared<snark::WeightedEdgeSamplerFactory>(meta, paths, indices);
            g.edge_sampler_factory[SamplerType::Uniform] =
                std::make_shared<snark::UniformEdgeSamplerFactory>(meta, paths, indices);
            g.edge_sampler_factory[SamplerType::UniformWithoutReplacement] =
                std::make_shared<snark::UniformEdgeSamplerFactoryWithoutReplacement>(meta, paths, indices);
            return s;
        }

        std::vector<std::shared_ptr<grpc::Channel>> channels;
        for (uint64_t k = 0; k < servers; ++k)
        {
            std::vector<uint32_t> mine;
            for (uint64_t i = 0; i < count; ++i)
                if (owner[i] == k)
                    mine.push_back(partitions[i]);
            std::vector<std::string> paths(mine.size(), std::string(path));
            std::shared_ptr<snark::GraphEngineServiceImpl> engine;
            std::shared_ptr<snark::GraphSamplerServiceImpl> sampler;
            if (!(bare[k] & 1))
                engine = std::make_shared<snark::GraphEngineServiceImpl>(meta, paths, mine, storage);
            if (!(bare[k] & 2))
                sampler = std::make_shared<snark::GraphSamplerServiceImpl>(
                    meta, paths, std::vector<size_t>(mine.begin(), mine.end()));
            s->servers.push_back(std::make_unique<snark::GRPCServer>(engine, sampler, "", "", "", ""));
            channels.push_back(s->servers.back()->InProcessChannel());
        }
        g.client = std::make_shared<snark::GRPCClient>(std::move(channels), 1, 1);
        return s;
    }

    int32_t vp_r_node_types(void *g, uint64_t n, const NodeID *ids, Type *out, Type missing)
    {
        return GetNodeType(graph(g), const_cast<NodeID *>(ids), n, out, missing);
    }

    int32_t vp_r_neighbor_count(void *g, uint64_t n, const NodeID *ids, uint64_t nt, const Type *types, uint64_t nts,
                                const Timestamp *ts, uint64_t *out)
    {
        return NeighborCount(graph(g), const_cast<NodeID *>(ids), n, maybe(nts, ts), const_cast<Type *>(types), nt, out);
    }

    int32_t vp_r_neighbors(void *g, uint32_t with_ts, uint64_t n, const NodeID *ids, uint64_t nt, const Type *types,
                           uint64_t nts, const Timestamp *ts, uint64_t room, NodeID *out_ids, Type *out_types,
                           float *out_weights, Timestamp *out_ts, uint64_t *out_counts, uint64_t *sizes)
    {
        kept = Kept{room, out_ids, out_types, out_weights, with_ts ? out_ts : nullptr, sizes};
        return GetNeighbors(graph(g), with_ts != 0, const_cast<NodeID *>(ids), n, maybe(nts, ts),
                            const_cast<Type *>(types), nt, out_counts, keep_neighbors);
    }

    int32_t vp_r_sample_neighbor(void *g, uint32_t with_ts, int64_t seed, uint64_t n, const NodeID *ids, uint64_t nt,
                                 Type *types, uint64_t nts, const Timestamp *ts, uint64_t count, NodeID *out_ids,
                                 Type *out_types, float *out_weights, float *, Timestamp *out_ts, NodeID missing_id,
                                 float missing_weight, Type missing_type)
    {
        // The caller fills the results with defaults.
        std::fill_n(out_ids, n * count, missing_id);
        std::fill_n(out_types, n * count, missing_type);
        std::fill_n(out_weights, n * count, missing_weight);
        if (with_ts)
            std::fill_n(out_ts, n * count, -1);
        return WeightedSampleNeighbor(graph(g), with_ts != 0, seed, const_cast<NodeID *>(ids), n, types, nt,
                                      maybe(nts, ts), count, out_ids, out_types, out_weights, out_ts, missing_id,
                                      missing_weight, missing_type);
    }

    int32_t vp_r_uniform_neighbor(void *g, uint32_t without, uint32_t with_ts, int64_t seed, uint64_t n,
                                  const NodeID *ids, uint64_t nt, Type *types, uint64_t nts, const Timestamp *ts,
                                  uint64_t count, NodeID *out_ids, Type *out_types, uint64_t *, Timestamp *out_ts,
                                  NodeID missing_id, Type missing_type)
    {
        std::fill_n(out_ids, n * count, missing_id);
        std::fill_n(out_types, n * count, missing_type);
        if (with_ts)
            std::fill_n(out_ts, n * count, -1);
        return UniformSampleNeighbor(graph(g), without != 0, with_ts != 0, seed, const_cast<NodeID *>(ids), n, types,
                                     nt, maybe(nts, ts), count, out_ids, out_types, out_ts, missing_id, missing_type);
    }

    int32_t vp_r_last_created(void *g, uint32_t with_ts, uint64_t n, const NodeID *ids, uint64_t nt, Type *types,
                              uint64_t nts, const Timestamp *ts, uint64_t count, NodeID *out_ids, Type *out_types,
                              float *out_weights, Timestamp *out_ts, NodeID missing_id, float missing_weight,
                              Type missing_type, Timestamp missing_ts)
    {
        std::fill_n(out_ids, n * count, missing_id);
        std::fill_n(out_types, n * count, missing_type);
        std::fill_n(out_weights, n * count, missing_weight);
        if (with_ts)
            std::fill_n(out_ts, n * count, missing_ts);
        return LastNCreatedNeighbor(graph(g), with_ts != 0, const_cast<NodeID *>(ids), n, types, nt, maybe(nts, ts),
                                    count, out_ids, out_types, out_weights, out_ts, missing_id, missing_weight,
                                    missing_type, missing_ts);
    }

    int32_t vp_r_node_feature(void *g, uint64_t n, const NodeID *ids, uint64_t nts, const Timestamp *ts, uint64_t nf,
                              const int32_t *feature_ids, const uint32_t *feature_sizes, uint64_t size, uint8_t *out)
    {
        auto f = pairs(nf, feature_ids, feature_sizes);
        return GetNodeFeature(graph(g), const_cast<NodeID *>(ids), n, maybe(nts, ts), f.data(), nf, out, size);
    }

    int32_t vp_r_edge_feature(void *g, uint64_t n, const NodeID *src, const NodeID *dst, const Type *types,
                              uint64_t nts, const Timestamp *ts, uint64_t nf, const int32_t *feature_ids,
                              const uint32_t *feature_sizes, uint64_t size, uint8_t *out)
    {
        auto f = pairs(nf, feature_ids, feature_sizes);
        return GetEdgeFeature(graph(g), const_cast<NodeID *>(src), const_cast<NodeID *>(dst),
                              const_cast<Type *>(types), n, maybe(nts, ts), f.data(), nf, out, size);
    }

    int32_t vp_r_node_string(void *g, uint64_t n, const NodeID *ids, uint64_t nts, const Timestamp *ts, uint64_t nf,
                             const int32_t *features, int64_t *dims, uint64_t room, uint8_t *out, uint64_t *sizes)
    {
        kept = Kept{.room = room, .sizes = sizes, .bytes = out};
        std::fill_n(dims, n * nf, 0);
        return GetNodeStringFeature(graph(g), const_cast<NodeID *>(ids), n, maybe(nts, ts),
                                    const_cast<int32_t *>(features), nf, dims, keep_string);
    }

    int32_t vp_r_edge_string(void *g, uint64_t n, const NodeID *src, const NodeID *dst, const Type *types, uint64_t nts,
                             const Timestamp *ts, uint64_t nf, const int32_t *features, int64_t *dims, uint64_t room,
                             uint8_t *out, uint64_t *sizes)
    {
        kept = Kept{.room = room, .sizes = sizes, .bytes = out};
        std::fill_n(dims, n * nf, 0);
        return GetEdgeStringFeature(graph(g), const_cast<NodeID *>(src), const_cast<NodeID *>(dst),
                                    const_cast<Type *>(types), n, maybe(nts, ts), const_cast<int32_t *>(features), nf,
                                    dims, keep_string);
    }

    int32_t vp_r_node_sparse(void *g, uint64_t n, const NodeID *ids, uint64_t nts, const Timestamp *ts, uint64_t nf,
                             const int32_t *features, int64_t *dims, uint64_t room, int64_t *indices, uint8_t *out,
                             uint64_t *sizes)
    {
        kept = Kept{.room = room, .sizes = sizes, .bytes = out, .indices = indices, .dims = dims, .features = nf};
        return GetNodeSparseFeature(graph(g), const_cast<NodeID *>(ids), n, maybe(nts, ts),
                                    const_cast<int32_t *>(features), nf, keep_sparse);
    }

    int32_t vp_r_edge_sparse(void *g, uint64_t n, const NodeID *src, const NodeID *dst, const Type *types, uint64_t nts,
                             const Timestamp *ts, uint64_t nf, const int32_t *features, int64_t *dims, uint64_t room,
                             int64_t *indices, uint8_t *out, uint64_t *sizes)
    {
        kept = Kept{.room = room, .sizes = sizes, .bytes = out, .indices = indices, .dims = dims, .features = nf};
        return GetEdgeSparseFeature(graph(g), const_cast<NodeID *>(src), const_cast<NodeID *>(dst),
                                    const_cast<Type *>(types), n, maybe(nts, ts), const_cast<int32_t *>(features), nf,
                                    keep_sparse);
    }

    int32_t vp_r_walk(void *g, int64_t seed, float p, float q, NodeID missing, uint64_t n, NodeID *ids, uint64_t nts,
                      Timestamp *ts, uint64_t nt, Type *types, uint64_t length, NodeID *out)
    {
        return RandomWalk(graph(g), seed, p, q, missing, ids, n, maybe(nts, ts), types, nt, length, out);
    }

    int32_t vp_r_ppr(void *g, uint64_t n, NodeID *ids, uint64_t nts, Timestamp *ts, uint64_t nt, Type *types,
                     uint64_t count, float alpha, float eps, NodeID missing, float missing_weight, NodeID *out,
                     float *weights)
    {
        return PPRSampleNeighbor(graph(g), ids, n, maybe(nts, ts), types, nt, count, alpha, eps, missing,
                                 missing_weight, out, weights);
    }

    void *vp_r_sampler(void *g, int32_t edges, int32_t kind, uint64_t nt, Type *wanted)
    {
        auto s = new PySampler();
        int32_t r;
        if (edges)
            r = kind == 0   ? CreateWeightedEdgeSampler(graph(g), s, nt, wanted)
                : kind == 1 ? CreateUniformEdgeSampler(graph(g), s, nt, wanted)
                            : CreateUniformEdgeSamplerWithoutReplacement(graph(g), s, nt, wanted);
        else
            r = kind == 0   ? CreateWeightedNodeSampler(graph(g), s, nt, wanted)
                : kind == 1 ? CreateUniformNodeSampler(graph(g), s, nt, wanted)
                            : CreateUniformNodeSamplerWithoutReplacement(graph(g), s, nt, wanted);
        if (r != 0)
        {
            delete s;
            return nullptr;
        }
        return s;
    }

    int32_t vp_r_sample(void *s, int32_t edges, int64_t seed, uint64_t count, Type *types, NodeID *src, NodeID *dst)
    {
        auto sampler = static_cast<PySampler *>(s);
        return edges ? SampleEdges(sampler, seed, count, src, dst, types)
                     : SampleNodes(sampler, seed, count, src, types);
    }

    void vp_r_sampler_free(void *s)
    {
        ResetSampler(static_cast<PySampler *>(s));
        delete static_cast<PySampler *>(s);
    }

    void vp_r_close(void *g)
    {
        ResetGraph(graph(g));
        delete static_cast<Served *>(g);
    }
}
