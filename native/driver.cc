// Entry points for the checks: one call per query of snark::Graph, with plain arrays.
#include <cstring>
#include <memory>
#include <set>
#include <span>
#include <string>
#include <vector>

#include "src/cc/lib/graph/graph.h"
#include "src/cc/lib/graph/sampler.h"

using namespace snark;

template <class T> static std::span<T> view(T *data, uint64_t n)
{
    return std::span<T>(data, size_t(n));
}

template <class T> static uint64_t give(const std::vector<T> &from, T *to, uint64_t room)
{
    for (size_t i = 0; i < from.size() && i < room; ++i)
        to[i] = from[i];
    return from.size();
}

static Metadata describe(const char *path, uint64_t partitions, uint64_t node_types, uint64_t edge_types,
                         uint64_t node_features, uint64_t edge_features, int64_t watermark)
{
    Metadata m;
    m.m_version = MINIMUM_SUPPORTED_VERSION;
    m.m_node_count = 0;
    m.m_edge_count = 0;
    m.m_edge_type_count = edge_types;
    m.m_node_type_count = node_types;
    m.m_node_feature_count = node_features;
    m.m_edge_feature_count = edge_features;
    m.m_partition_count = partitions;
    m.m_path = path;
    m.m_watermark = watermark;
    return m;
}

extern "C"
{
    void *vp_open(const char *path, uint64_t count, const uint32_t *partitions, uint64_t node_types,
                  uint64_t edge_types, uint64_t node_features, uint64_t edge_features, int64_t watermark, int32_t disk)
    {
        auto meta = describe(path, count, node_types, edge_types, node_features, edge_features, watermark);
        std::vector<std::string> paths(count, std::string(path));
        std::vector<uint32_t> indices(partitions, partitions + count);
        return new Graph(std::move(meta), std::move(paths), std::move(indices),
                         disk ? PartitionStorageType::disk : PartitionStorageType::memory);
    }

    void vp_close(void *g)
    {
        delete static_cast<Graph *>(g);
    }

    void vp_node_types(void *g, uint64_t n, const NodeId *ids, Type *out, Type missing)
    {
        static_cast<Graph *>(g)->GetNodeType(view(ids, n), view(out, n), missing);
    }

    void vp_neighbor_count(void *g, uint64_t n, const NodeId *ids, uint64_t nt, const Type *types, uint64_t nts,
                           const Timestamp *ts, uint64_t *out)
    {
        static_cast<Graph *>(g)->NeighborCount(view(ids, n), view(types, nt), view(ts, nts), view(out, n));
    }

    void vp_neighbors(void *g, uint32_t with_ts, uint64_t n, const NodeId *ids, uint64_t nt, const Type *types,
                      uint64_t nts, const Timestamp *ts, uint64_t room, NodeId *out_ids, Type *out_types,
                      float *out_weights, Timestamp *out_ts, uint64_t *out_counts, uint64_t *sizes)
    {
        std::vector<NodeId> nodes;
        std::vector<Type> tps;
        std::vector<float> weights;
        std::vector<Timestamp> created;
        static_cast<Graph *>(g)->FullNeighbor(with_ts != 0, view(ids, n), view(types, nt), view(ts, nts), nodes, tps,
                                              weights, created, view(out_counts, n));
        sizes[0] = give(nodes, out_ids, room);
        sizes[1] = give(tps, out_types, room);
        sizes[2] = give(weights, out_weights, room);
        sizes[3] = give(created, out_ts, room);
    }

    void vp_sample_neighbor(void *g, uint32_t with_ts, int64_t seed, uint64_t n, const NodeId *ids, uint64_t nt,
                            Type *types, uint64_t nts, const Timestamp *ts, uint64_t count, NodeId *out_ids,
                            Type *out_types, float *out_weights, float *totals, Timestamp *out_ts, NodeId missing_id,
                            float missing_weight, Type missing_type)
    {
        static_cast<Graph *>(g)->SampleNeighbor(
            with_ts != 0, seed, view(ids, n), view(types, nt), view(ts, nts), count, view(out_ids, n * count),
            view(out_types, n * count), view(out_weights, n * count), view(totals, n), view(out_ts, n * count),
            missing_id, missing_weight, missing_type);
    }

    void vp_uniform_neighbor(void *g, uint32_t without, uint32_t with_ts, int64_t seed, uint64_t n, const NodeId *ids,
                             uint64_t nt, Type *types, uint64_t nts, const Timestamp *ts, uint64_t count,
                             NodeId *out_ids, Type *out_types, uint64_t *totals, Timestamp *out_ts, NodeId missing_id,
                             Type missing_type)
    {
        static_cast<Graph *>(g)->UniformSampleNeighbor(
            without != 0, with_ts != 0, seed, view(ids, n), view(types, nt), view(ts, nts), count,
            view(out_ids, n * count), view(out_types, n * count), view(totals, n), view(out_ts, n * count),
            missing_id, missing_type);
    }

    void vp_last_created(void *g, uint32_t with_ts, uint64_t n, const NodeId *ids, uint64_t nt, Type *types,
                         uint64_t nts, const Timestamp *ts, uint64_t count, NodeId *out_ids, Type *out_types,
                         float *out_weights, Timestamp *out_ts, NodeId missing_id, float missing_weight,
                         Type missing_type, Timestamp missing_ts)
    {
        static_cast<Graph *>(g)->LastNCreated(with_ts != 0, view(ids, n), view(types, nt), view(ts, nts), count,
                                              view(out_ids, n * count), view(out_types, n * count),
                                              view(out_weights, n * count), view(out_ts, n * count), missing_id,
                                              missing_weight, missing_type, missing_ts);
    }

    void vp_node_feature(void *g, uint64_t n, const NodeId *ids, uint64_t nts, const Timestamp *ts, uint64_t nf,
                         const int32_t *feature_ids, const uint32_t *feature_sizes, uint64_t size, uint8_t *out)
    {
        std::vector<FeatureMeta> features;
        for (uint64_t i = 0; i < nf; ++i)
            features.emplace_back(feature_ids[i], feature_sizes[i]);
        static_cast<Graph *>(g)->GetNodeFeature(view(ids, n), view(ts, nts), std::span(features), view(out, size));
    }

    void vp_edge_feature(void *g, uint64_t n, const NodeId *src, const NodeId *dst, const Type *types, uint64_t nts,
                         const Timestamp *ts, uint64_t nf, const int32_t *feature_ids, const uint32_t *feature_sizes,
                         uint64_t size, uint8_t *out)
    {
        std::vector<FeatureMeta> features;
        for (uint64_t i = 0; i < nf; ++i)
            features.emplace_back(feature_ids[i], feature_sizes[i]);
        static_cast<Graph *>(g)->GetEdgeFeature(view(src, n), view(dst, n), view(types, n), view(ts, nts),
                                                std::span(features), view(out, size));
    }

    void vp_node_string(void *g, uint64_t n, const NodeId *ids, uint64_t nts, const Timestamp *ts, uint64_t nf,
                        const int32_t *features, int64_t *dims, uint64_t room, uint8_t *out, uint64_t *sizes)
    {
        std::vector<uint8_t> data;
        static_cast<Graph *>(g)->GetNodeStringFeature(view(ids, n), view(ts, nts), view(features, nf),
                                                      view(dims, n * nf), data);
        sizes[0] = give(data, out, room);
    }

    void vp_edge_string(void *g, uint64_t n, const NodeId *src, const NodeId *dst, const Type *types, uint64_t nts,
                        const Timestamp *ts, uint64_t nf, const int32_t *features, int64_t *dims, uint64_t room,
                        uint8_t *out, uint64_t *sizes)
    {
        std::vector<uint8_t> data;
        static_cast<Graph *>(g)->GetEdgeStringFeature(view(src, n), view(dst, n), view(types, n), view(ts, nts),
                                                      view(features, nf), view(dims, n * nf), data);
        sizes[0] = give(data, out, room);
    }

    void vp_node_sparse(void *g, uint64_t n, const NodeId *ids, uint64_t nts, const Timestamp *ts, uint64_t nf,
                        const int32_t *features, int64_t *dims, uint64_t room, int64_t *indices, uint8_t *out,
                        uint64_t *sizes)
    {
        std::vector<std::vector<int64_t>> ind(nf);
        std::vector<std::vector<uint8_t>> val(nf);
        static_cast<Graph *>(g)->GetNodeSparseFeature(view(ids, n), view(ts, nts), view(features, nf), view(dims, nf),
                                                      ind, val);
        for (uint64_t f = 0; f < nf; ++f)
        {
            sizes[2 * f] = give(ind[f], indices + f * room, room);
            sizes[2 * f + 1] = give(val[f], out + f * room, room);
        }
    }

    void vp_edge_sparse(void *g, uint64_t n, const NodeId *src, const NodeId *dst, const Type *types, uint64_t nts,
                        const Timestamp *ts, uint64_t nf, const int32_t *features, int64_t *dims, uint64_t room,
                        int64_t *indices, uint8_t *out, uint64_t *sizes)
    {
        std::vector<std::vector<int64_t>> ind(nf);
        std::vector<std::vector<uint8_t>> val(nf);
        static_cast<Graph *>(g)->GetEdgeSparseFeature(view(src, n), view(dst, n), view(types, n), view(ts, nts),
                                                      view(features, nf), view(dims, nf), ind, val);
        for (uint64_t f = 0; f < nf; ++f)
        {
            sizes[2 * f] = give(ind[f], indices + f * room, room);
            sizes[2 * f + 1] = give(val[f], out + f * room, room);
        }
    }

    // kind: 0 weighted, 1 uniform, 2 without replacement; weights has a row of types per partition of the graph
    void *vp_sampler(int32_t edges, int32_t kind, const char *meta_path, const char *path, uint64_t count,
                     const uint64_t *partitions, uint64_t types, uint64_t rows, const float *weights, uint64_t nt,
                     const Type *wanted)
    {
        auto meta = describe(meta_path, rows, edges ? 1 : types, edges ? types : 1, 0, 0, -1);
        auto &all = edges ? meta.m_partition_edge_weights : meta.m_partition_node_weights;
        for (uint64_t i = 0; i < rows; ++i)
            all.emplace_back(weights + i * types, weights + (i + 1) * types);
        std::vector<std::string> paths(count, std::string(path));
        std::vector<size_t> indices(partitions, partitions + count);
        std::set<Type> tp(wanted, wanted + nt);
        std::unique_ptr<SamplerFactory> factory;
        if (edges && kind == 0)
            factory = std::make_unique<WeightedEdgeSamplerFactory>(meta, paths, indices);
        else if (edges && kind == 1)
            factory = std::make_unique<UniformEdgeSamplerFactory>(meta, paths, indices);
        else if (edges)
            factory = std::make_unique<UniformEdgeSamplerFactoryWithoutReplacement>(meta, paths, indices);
        else if (kind == 0)
            factory = std::make_unique<WeightedNodeSamplerFactory>(meta, paths, indices);
        else if (kind == 1)
            factory = std::make_unique<UniformNodeSamplerFactory>(meta, paths, indices);
        else
            factory = std::make_unique<UniformNodeSamplerFactoryWithoutReplacement>(meta, paths, indices);
        return factory->Create(tp).release();
    }

    void vp_sample(void *s, int32_t edges, int64_t seed, uint64_t count, Type *types, NodeId *src, NodeId *dst)
    {
        auto sampler = static_cast<Sampler *>(s);
        if (edges)
            sampler->Sample(seed, view(types, count), view(src, count), view(dst, count));
        else
            sampler->Sample(seed, view(types, count), view(src, count));
    }

    void vp_sampler_weight(void *s, float *out)
    {
        *out = static_cast<Sampler *>(s)->Weight();
    }

    void vp_sampler_free(void *s)
    {
        delete static_cast<Sampler *>(s);
    }
}
