"""Plain C++ classes for the messages and services of a proto file, in place of the generated ones."""
import re

SCALARS = {
    "int32": "int32_t", "int64": "int64_t", "uint32": "uint32_t", "uint64": "uint64_t", "sint32": "int32_t", "sint64": "int64_t",
    "fixed32": "uint32_t", "fixed64": "uint64_t", "sfixed32": "int32_t", "sfixed64": "int64_t",
    "bool": "bool", "float": "float", "double": "double",
}  # fmt: skip


def _blocks(text, kind):
    """(name, body) of every top-level block of a kind."""
    for m in re.finditer(r"^\s*%s\s+(\w+)\s*\{" % kind, text, re.M):
        depth, i = 1, m.end()
        while depth:
            depth += {"{": 1, "}": -1}.get(text[i], 0)
            i += 1
        yield m.group(1), text[m.end() : i - 1]


def _message(name, body):
    out, enums = [], []
    for en, eb in _blocks(body, "enum"):
        values = re.findall(r"(\w+)\s*=\s*(-?\d+)\s*;", eb)
        enums.append("enum %s_%s : int { %s };" % (name, en, ", ".join(f"{name}_{en}_{k} = {v}" for k, v in values)))
        out.append(f"using {en} = {name}_{en};")
        out += [f"static constexpr {en} {k} = {name}_{en}_{k};" for k, _ in values]
    rest = body
    for en, eb in _blocks(body, "enum"):
        rest = rest.replace(eb, "")
    rest = re.sub(r"enum\s+\w+\s*\{\}", "", rest)
    fields, clear = [], []
    names = [e.split()[1].split("_", 1)[1] for e in enums]
    for rep, ty, f in re.findall(r"(repeated\s+|optional\s+)?([\w.]+)\s+(\w+)\s*=\s*\d+\s*(?:\[[^\]]*\])?\s*;", rest):
        if rep.strip() == "repeated":
            if ty in SCALARS:
                t = SCALARS[ty]
                c = f"::google::protobuf::RepeatedField<{t}>"
                out.append(f"void add_{f}({t} v) {{ m_{f}.Add(v); }} void set_{f}(int i, {t} v) {{ m_{f}.Set(i, v); }} {t} {f}(int i) const {{ return m_{f}.Get(i); }}")
            else:
                t = "std::string" if ty in ("bytes", "string") else ty
                c = f"::google::protobuf::RepeatedPtrField<{t}>"
                out.append(f"{t} *add_{f}() {{ m_{f}.Add({t}()); return m_{f}.Mutable(m_{f}.size() - 1); }} const {t} &{f}(int i) const {{ return m_{f}.Get(i); }} {t} *mutable_{f}(int i) {{ return m_{f}.Mutable(i); }}")
            out.append(f"const {c} &{f}() const {{ return m_{f}; }} {c} *mutable_{f}() {{ return &m_{f}; }} int {f}_size() const {{ return m_{f}.size(); }} void clear_{f}() {{ m_{f}.Clear(); }}")
            fields.append(f"{c} m_{f};")
        elif ty in SCALARS or ty in names:
            t = SCALARS.get(ty, ty)
            out.append(f"{t} {f}() const {{ return m_{f}; }} void set_{f}({t} v) {{ m_{f} = v; }} void clear_{f}() {{ m_{f} = {t}(); }}")
            fields.append(f"{t} m_{f} = {t}();")
        else:
            t = "std::string" if ty in ("bytes", "string") else ty
            out.append(f"const {t} &{f}() const {{ return m_{f}; }} {t} *mutable_{f}() {{ return &m_{f}; }} void set_{f}(const {t} &v) {{ m_{f} = v; }} void clear_{f}() {{ m_{f} = {t}(); }}")
            if t == "std::string":
                out.append(f"void set_{f}(const void *d, size_t n) {{ m_{f}.assign(static_cast<const char *>(d), n); }}")
            fields.append(f"{t} m_{f};")
        clear.append(f"clear_{f}();")
    return enums, "class %s\n{\n  public:\n%s\n    void Clear() { %s }\n    void CopyFrom(const %s &other) { *this = other; }\n    void Swap(%s *other) { std::swap(*this, *other); }\n  private:\n%s\n};" % (name, "\n".join("    " + x for x in out), " ".join(clear), name, name, "\n".join("    " + x for x in fields))


def header(text):
    text = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
    package = re.search(r"package\s+([\w.]+)\s*;", text).group(1).replace(".", "::")
    messages = list(_blocks(text, "message"))
    code = ["#pragma once", "#include <cstdint>", "#include <string>", "#include <utility>", '#include "grpcpp/grpcpp.h"', f"namespace {package} {{"]
    code += [f"class {n};" for n, _ in messages]
    made = {n: _message(n, b) for n, b in messages}
    for n in made:
        code += made[n][0]
    done = set()

    def emit(n, body):
        if n in done:
            return
        done.add(n)
        for other, b in messages:
            if other != n and re.search(r"(?:^|\s)%s\s+\w+\s*=" % other, body):
                emit(other, b)
        code.append(made[n][1])

    for n, b in messages:
        emit(n, b)
    for n, b in _blocks(text, "service"):
        calls = re.findall(r"rpc\s+(\w+)\s*\(\s*([\w.]+)\s*\)\s*returns\s*\(\s*([\w.]+)\s*\)", b)
        code += [f"class {n} final", "{", "  public:", "    class Service : public ::grpc::Service", "    {", "      public:"]
        for c, q, r in calls:
            code.append(f'        virtual ::grpc::Status {c}(::grpc::ServerContext *, const {q} *, {r} *) {{ return ::grpc::Status(::grpc::StatusCode::UNIMPLEMENTED, ""); }}')
        code += ["    };", "    class AsyncService : public ::grpc::Service", "    {", "      public:", f'        const char *vp_name() const override {{ return "{n}"; }}']
        code += ["        void vp_handle(int method, const void *request, void *reply, ::grpc::Status *status) override", "        {", "            switch (method)", "            {"]
        code += [f"            case {i}: vp_{c}.handle(request, reply, status); return;" for i, (c, _, _) in enumerate(calls)]
        code += ["            }", "            abort();", "        }"]
        for c, q, r in calls:
            code.append(f"        void Request{c}(::grpc::ServerContext *, {q} *q, ::grpc::ServerAsyncResponseWriter<{r}> *w, ::grpc::CompletionQueue *, ::grpc::ServerCompletionQueue *, void *tag) {{ vp_{c}.add(q, w, tag); }}")
            code.append(f"        ::grpc::vp_slots<{q}, {r}> vp_{c};")
        code += ["    };", "    class Stub", "    {", "      public:", "        explicit Stub(std::shared_ptr<::grpc::Channel> c) : m_channel(std::move(c)) {}"]
        for i, (c, q, r) in enumerate(calls):
            code.append(f"        std::unique_ptr<::grpc::ClientAsyncResponseReader<{r}>> PrepareAsync{c}(::grpc::ClientContext *, const {q} &q, ::grpc::CompletionQueue *queue)")
            code.append(f'        {{ return std::make_unique<::grpc::ClientAsyncResponseReader<{r}>>(m_channel, "{n}", {i}, std::make_shared<const {q}>(q), queue); }}')
        code += ["      private:", "        std::shared_ptr<::grpc::Channel> m_channel;", "    };"]
        code += ["    static std::unique_ptr<Stub> NewStub(const std::shared_ptr<::grpc::Channel> &c) { return std::make_unique<Stub>(c); }", "};"]
    code.append("}")
    return "\n".join(code) + "\n"
