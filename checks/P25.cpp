// P25: a serialized tree is the tree, to the last bit; copies and moves of a tree are the tree.
#include "hierarchy.hpp"
#include "tree.hpp"

#include "ffcl/datastruct/tree/single_linkage_cluster_tree/SingleLinkageClusterTree.hpp"

#include <unistd.h>

namespace {
namespace fd = ffcl::datastruct;

// A small JSON reader (numbers are kept as text and read with strtod / strtoull, which round correctly).
struct Json {
    char                                     kind = 0;  // o a n s l
    std::string                              text;
    std::vector<Json>                        items;
    std::vector<std::pair<std::string, Json>> fields;

    const Json* at(const char* name) const {
        for (const auto& f : fields)
            if (f.first == name) return &f.second;
        return nullptr;
    }
};

struct Reader {
    const std::string& s;
    std::size_t        i = 0;
    bool               ok = true;

    void space() { while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) ++i; }
    bool eat(char ch) {
        space();
        if (i < s.size() && s[i] == ch) return ++i, true;
        return false;
    }
    std::string string() {
        std::string out;
        if (!eat('"')) return ok = false, out;
        while (i < s.size() && s[i] != '"') out += s[i++];
        if (i == s.size()) ok = false; else ++i;
        return out;
    }
    Json value(int depth = 0) {
        Json j;
        space();
        if (!ok || i >= s.size() || depth > 5000) return ok = false, j;
        if (eat('{')) {
            j.kind = 'o';
            if (eat('}')) return j;
            do {
                auto name = string();
                if (!eat(':')) ok = false;
                if (ok) j.fields.emplace_back(name, value(depth + 1));
            } while (ok && eat(','));
            if (!eat('}')) ok = false;
        } else if (eat('[')) {
            j.kind = 'a';
            if (eat(']')) return j;
            do j.items.push_back(value(depth + 1));
            while (ok && eat(','));
            if (!eat(']')) ok = false;
        } else if (s[i] == '"') {
            j.kind = 's';
            j.text = string();
        } else {
            j.kind = 'n';
            while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '-' || s[i] == '+' || s[i] == '.')) j.text += s[i++];
            if (j.text.empty()) ok = false;
        }
        return j;
    }
};

template <typename T>
bool same_number(const Json& j, T x) {
    if (j.kind != 'n') return false;
    char* end = nullptr;
    if constexpr (std::is_floating_point<T>::value) {
        const double v = std::strtod(j.text.c_str(), &end);
        return *end == 0 && v == double(x);
    } else if constexpr (std::is_signed<T>::value) {
        const long long v = std::strtoll(j.text.c_str(), &end, 10);
        return *end == 0 && v == static_cast<long long>(x);
    } else {
        const unsigned long long v = std::strtoull(j.text.c_str(), &end, 10);
        return *end == 0 && j.text[0] != '-' && v == static_cast<unsigned long long>(x);
    }
}

template <typename T>
void number(pbt::Case& c, const Json& parent, const char* name, T x) {
    const Json* j = parent.at(name);
    c.require(j != nullptr, "missing", "no ", name);
    c.require(same_number(*j, x), name, name, " is ", j->text, " instead of ", x);
}

// serialize to a scratch file of this process, read it back
template <typename Tree>
Json written(pbt::Case& c, const Tree& tree) {
    char       name[] = "/tmp/ffcl-p25-XXXXXX";
    const int  fd     = mkstemp(name);
    c.require(fd >= 0, "scratch", "no scratch file");
    close(fd);
    tree.serialize(std::filesystem::path(name));
    std::ifstream      in(name);
    std::ostringstream text;
    text << in.rdbuf();
    unlink(name);
    const auto s = text.str();
    Reader     r{s};
    Json       j = r.value();
    r.space();
    c.require(r.ok && r.i == s.size() && j.kind == 'o', "json", "not a JSON object: ", s.substr(0, 200));
    return j;
}

// values with all the bits of their type
template <typename T>
T any_value(pbt::Case& c, std::uint64_t shape) {
    if constexpr (std::is_floating_point<T>::value) {
        const double m = double(c.draw(std::uint64_t{1} << 53)) / double(std::uint64_t{1} << 52) - 1;
        switch (shape) {
            case 0: return static_cast<T>(c.symmetric(20));
            case 1: return static_cast<T>(m);
            case 2: return static_cast<T>(std::ldexp(m, int(c.symmetric(90))));
            default: return static_cast<T>(double(c.symmetric(100000)) / 1000);
        }
    } else if constexpr (std::is_signed<T>::value) {
        return static_cast<T>(shape ? c.symmetric(2000) : c.symmetric(20));
    } else {
        return static_cast<T>(c.draw(shape ? 2000 : 20));
    }
}

template <typename Tree, typename Node, typename T>
void same_kdnode(pbt::Case& c, const Json& j, const Node& node, const gen::Data<T>& x, std::size_t& nodes) {
    ++nodes;
    number(c, j, "axis", node->cut_axis_feature_index_);
    const Json* points = j.at("points");
    c.require(points && points->kind == 'a' && points->items.size() == node->n_samples(), "points", "a node of ", node->n_samples(), " samples has ", points ? points->items.size() : 0, " points");
    std::size_t k = 0;
    for (auto it = node->begin(); it != node->end(); ++it, ++k) {
        const auto& p = points->items[k];
        c.require(p.kind == 'a' && p.items.size() == x.d, "features", p.items.size(), " features instead of ", x.d);
        for (std::size_t f = 0; f < x.d; ++f) c.require(same_number(p.items[f], x.row(*it)[f]), "value", "feature ", f, " of sample ", *it, " is ", p.items[f].text, " instead of ", x.row(*it)[f]);
    }
    c.require((j.at("left") != nullptr) == bool(node->left_) && (j.at("right") != nullptr) == bool(node->right_), "children", "wrong children");
    if (node->left_) same_kdnode<Tree>(c, *j.at("left"), node->left_, x, nodes);
    if (node->right_) same_kdnode<Tree>(c, *j.at("right"), node->right_, x, nodes);
}

template <typename Tree, typename T>
std::size_t same_kdtree(pbt::Case& c, const Tree& tree, const gen::Data<T>& x, const std::vector<std::size_t>& indices, const gen::TreeConfig& t) {
    c.require(tree.n_features() == x.d && tree.begin() == x.v.cbegin() && tree.end() == x.v.cend() && tree.cbegin() == x.v.cbegin() && tree.cend() == x.v.cend(), "samples", "the tree is not over its samples");
    c.require(tree.n_samples() == x.n, "n_samples", tree.n_samples(), " samples instead of ", x.n);
    for (std::size_t i = 0; i < x.n; ++i)
        c.require(tree[i] == x.v.cbegin() + i * x.d && tree.features_range_first(i) == tree[i] && tree.features_range_last(i) == tree[i] + x.d, "sample", "sample ", i);
    c.require(tree.root() != nullptr, "root", "no root");
    const auto j = written(c, tree);
    number(c, j, "n_samples", indices.size());
    number(c, j, "n_features", x.d);
    const Json* o = j.at("options");
    c.require(o != nullptr, "missing", "no options");
    number(c, *o, "bucket_size", t.defaults ? std::size_t{40} : t.bucket_size);
    number(c, *o, "max_depth", t.defaults ? std::numeric_limits<std::size_t>::max() : t.max_depth);
    const Json* box = j.at("bounding_box");
    c.require(box && box->items.size() == x.d, "bounding_box", "no bounding box");
    for (std::size_t f = 0; f < x.d; ++f) {
        T lo = x.row(indices[0])[f], hi = lo;
        for (auto i : indices) lo = std::min(lo, x.row(i)[f]), hi = std::max(hi, x.row(i)[f]);
        c.require(box->items[f].items.size() == 2 && same_number(box->items[f].items[0], lo) && same_number(box->items[f].items[1], hi), "bounding_box", "feature ", f);
    }
    const Json* root = j.at("root");
    c.require(root != nullptr, "missing", "no root");
    std::size_t nodes = 0;
    same_kdnode<Tree>(c, *root, tree.root(), x, nodes);
    return nodes;
}

template <typename T>
void kdtree(pbt::Case& c, std::size_t max_n) {
    gen::Data<T> x;
    x.n = gen::sizeable(c, 1, std::min<std::size_t>(max_n / 4, 20), max_n);
    x.d = gen::features(c, 4);
    x.v.resize(x.n * x.d);
    const auto shape = c.draw(4);
    // integers wider than 32 bits: a large offset, with differences whose squares can be summed
    T offset = 0;
    if constexpr (std::is_unsigned<T>::value)
        offset = shape > 1 ? std::numeric_limits<T>::max() - 2000 - static_cast<T>(c.draw(std::uint64_t{1} << 31)) : T(0);
    else if constexpr (sizeof(T) > 4 && std::is_integral<T>::value)
        offset = shape > 1 ? static_cast<T>(c.symmetric(std::int64_t{1} << 50)) : T(0);
    for (auto& e : x.v) e = any_value<T>(c, shape) + offset;
    auto       indices = gen::indices(c, x.n, 1);
    auto       t       = gen::tree_config(c, x.n, x.d);
    if (!t.defaults && c.chance(1, 16)) t.bucket_size = std::numeric_limits<std::size_t>::max() - c.draw(3);
    if (c.showing()) c.show() << "samples " << gen::show_rows(x.v, x.d) << " indices " << pbt::list_of(indices) << " " << t.text() << "\n";
    using Tree = gen::Tree<T>;
    auto first = std::make_unique<Tree>(gen::build_tree(indices, x, t));
    auto nodes = same_kdtree(c, *first, x, indices, t);
    // a history of copies and moves, the originals being destroyed
    const std::size_t steps = c.draw(4);
    for (std::size_t s = 0; s < steps; ++s) {
        const bool move = c.chance(1, 2);
        if (c.showing()) c.show() << (move ? "move " : "copy ");
        auto next = move ? std::make_unique<Tree>(std::move(*first)) : std::make_unique<Tree>(*first);
        first = std::move(next);
        c.require(same_kdtree(c, *first, x, indices, t) == nodes, "nodes", "the number of nodes changed");
    }
    c.nontrivial(nodes > 2);
}

LAW("kdtree-double", 8000, 160000, [](pbt::Case& c) { kdtree<double>(c, 40); });
LAW("kdtree-large", 120, 2400, [](pbt::Case& c) { kdtree<float>(c, 1500); });
LAW("kdtree-float", 4000, 80000, [](pbt::Case& c) { kdtree<float>(c, 40); });
LAW("kdtree-int64", 4000, 80000, [](pbt::Case& c) { kdtree<std::int64_t>(c, 40); });
LAW("kdtree-unsigned", 4000, 80000, [](pbt::Case& c) { c.chance(1, 2) ? kdtree<unsigned>(c, 40) : kdtree<std::uint64_t>(c, 40); });
LAW("kdtree-int", 4000, 80000, [](pbt::Case& c) { kdtree<int>(c, 40); });

template <typename T, typename Node>
void same_node(pbt::Case& c, const Json& j, const Node& node) {
    number(c, j, "representative", node->representative_);
    number(c, j, "level", node->level_);
    number(c, j, "cluster_size", node->cluster_size_);
    c.require((j.at("left") != nullptr) == bool(node->left_) && (j.at("right") != nullptr) == bool(node->right_), "children", "wrong children");
    if (node->left_) same_node<T>(c, *j.at("left"), node->left_);
    if (node->right_) same_node<T>(c, *j.at("right"), node->right_);
}

template <typename T>
void linkage(pbt::Case& c, std::size_t max_n) {
    const std::size_t n     = gen::count(c, 2, max_n);
    auto              edges = gen::random_tree<T>(c, n);
    const auto        shape = c.draw(4);
    for (auto& [a, b, w] : edges) {
        w = any_value<T>(c, shape);
        if constexpr (std::is_signed<T>::value) w = w < 0 ? -w : w;
        else if (shape > 2) w = std::numeric_limits<T>::max() - w;
    }
    if (c.showing()) c.show() << "n=" << n << " edges " << gen::show_edges(edges) << "\n";
    fd::SingleLinkageClusterTree<std::size_t, T> tree(edges);
    const auto j = written(c, tree);
    c.require(j.at("root") != nullptr, "missing", "no root");
    same_node<T>(c, *j.at("root"), tree.root());
    c.require(tree.root()->cluster_size_ == n, "all", tree.root()->cluster_size_, " samples");
    c.nontrivial(n > 3);
}

LAW("linkage-double", 8000, 160000, [](pbt::Case& c) { linkage<double>(c, 40); });
LAW("linkage-large", 200, 4000, [](pbt::Case& c) { linkage<double>(c, 1200); });
LAW("linkage-float", 4000, 80000, [](pbt::Case& c) { linkage<float>(c, 40); });
LAW("linkage-unsigned", 4000, 80000, [](pbt::Case& c) { c.chance(1, 2) ? linkage<unsigned>(c, 40) : linkage<std::uint64_t>(c, 40); });
LAW("linkage-int", 4000, 80000, [](pbt::Case& c) { linkage<int>(c, 40); });

}  // namespace
