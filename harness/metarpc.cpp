// Requests to metad: each answered once, by what the leader did with that very
// request, within the attempts allowed.
#include "sim.h"
#include "simnet.h"
#include "common/base/Base.h"
#include <folly/executors/IOThreadPoolExecutor.h>
#include "common/clients/meta/MetaClient.h"
#include "common/interface/gen-cpp2/MetaServiceAsyncClient.h"
#include "stubs_meta.h"

using namespace sim;
using nebula::HostAddr;
using nebula::StatusOr;
using nebula::Value;
using nebula::cpp2::ErrorCode;
using nebula::meta::MetaClient;
namespace mc = nebula::meta::cpp2;
DECLARE_int32(meta_client_retry_times);
DECLARE_int32(meta_client_retry_interval_secs);
DECLARE_int32(meta_client_timeout_ms);

namespace {
const int64_t SEC = 1000000000LL;
using Str = std::string;
Str N(int k) { return "r" + std::to_string(k); }
Str I(int64_t v) { return std::to_string(v); }
HostAddr H(int k, int salt = 0) { return HostAddr("h" + std::to_string(salt) + "x" + std::to_string(k), 1000 + k); }
Str hs(const HostAddr& h) { return h.host + ":" + I(h.port); }
Str hv(const std::vector<HostAddr>& v) { Str r; for (auto& h : v) r += hs(h) + ","; return r; }
Str sv(const std::vector<Str>& v) { Str r; for (auto& h : v) r += h + ","; return r; }
std::vector<HostAddr> HV(int k) { std::vector<HostAddr> v; for (int i = 0; i <= k % 3; i++) v.push_back(H(k, i)); return v; }
mc::Schema SC(int k) { mc::Schema s; for (int i = 0; i <= k % 2; i++) { mc::ColumnDef c; c.set_name("c" + I(k) + "_" + I(i)); mc::ColumnTypeDef t; t.set_type(mc::PropertyType::INT64); c.set_type(t); s.columns.push_back(c); } mc::SchemaProp p; p.set_ttl_duration(k); s.set_schema_prop(p); return s; }
Str ss(const mc::Schema& s) { Str r; for (auto& c : s.get_columns()) r += c.get_name() + ","; auto& p = s.get_schema_prop(); return r + (p.ttl_duration_ref().has_value() ? I(*p.ttl_duration_ref()) : "-"); }
std::vector<mc::IndexFieldDef> FD(int k) { mc::IndexFieldDef f; f.set_name("f" + I(k)); return {f}; }
Str fd(const std::vector<mc::IndexFieldDef>& v) { Str r; for (auto& f : v) r += f.get_name() + ","; return r; }
mc::RoleItem RI(int k) { mc::RoleItem r; r.set_user_id(N(k)); r.set_space_id(k * 3); r.set_role_type(static_cast<mc::RoleType>(1 + k % 5)); return r; }
Str ri(const mc::RoleItem& r) { return r.get_user_id() + "/" + I(r.get_space_id()) + "/" + I((int)r.get_role_type()); }
mc::IndexItem II(int k) { mc::IndexItem i; i.set_index_id(k + 9); i.set_index_name("i" + I(k)); i.set_schema_name("s" + I(k)); return i; }
Str ii(const mc::IndexItem& i) { return I(i.get_index_id()) + "/" + i.get_index_name() + "/" + i.get_schema_name(); }
template <class T, class F> Str each(const T& v, F f) { Str r; for (auto& x : v) r += f(x) + ","; return r; }
mc::FTIndex FI(int k) { mc::FTIndex f; f.set_space_id(k + 1); f.fields.push_back("f" + I(k)); return f; }
mc::Session SE(int k) { mc::Session s; s.set_session_id(k); s.set_user_name("u" + I(k)); s.set_client_ip("ip" + I(k)); return s; }
Str se(const mc::Session& s) { return I(s.get_session_id()) + "/" + s.get_user_name() + "/" + s.get_client_ip(); }

const ErrorCode codes[] = {ErrorCode::E_DISCONNECTED, ErrorCode::E_FAIL_TO_CONNECT, ErrorCode::E_RPC_FAILURE, ErrorCode::E_NO_HOSTS,
    ErrorCode::E_EXISTED, ErrorCode::E_SPACE_NOT_FOUND, ErrorCode::E_TAG_NOT_FOUND, ErrorCode::E_EDGE_NOT_FOUND,
    ErrorCode::E_INDEX_NOT_FOUND, ErrorCode::E_EDGE_PROP_NOT_FOUND, ErrorCode::E_TAG_PROP_NOT_FOUND, ErrorCode::E_ROLE_NOT_FOUND,
    ErrorCode::E_CONFIG_NOT_FOUND, ErrorCode::E_PART_NOT_FOUND, ErrorCode::E_USER_NOT_FOUND, ErrorCode::E_GROUP_NOT_FOUND,
    ErrorCode::E_ZONE_NOT_FOUND, ErrorCode::E_KEY_NOT_FOUND, ErrorCode::E_INVALID_HOST, ErrorCode::E_UNSUPPORTED,
    ErrorCode::E_NOT_DROP, ErrorCode::E_BALANCER_RUNNING, ErrorCode::E_CONFIG_IMMUTABLE, ErrorCode::E_CONFLICT,
    ErrorCode::E_INVALID_PARM, ErrorCode::E_WRONGCLUSTER, ErrorCode::E_STORE_FAILURE, ErrorCode::E_STORE_SEGMENT_ILLEGAL,
    ErrorCode::E_BAD_BALANCE_PLAN, ErrorCode::E_BALANCED, ErrorCode::E_NO_RUNNING_BALANCE_PLAN, ErrorCode::E_NO_VALID_HOST,
    ErrorCode::E_CORRUPTTED_BALANCE_PLAN, ErrorCode::E_INVALID_PASSWORD, ErrorCode::E_IMPROPER_ROLE, ErrorCode::E_INVALID_PARTITION_NUM,
    ErrorCode::E_INVALID_REPLICA_FACTOR, ErrorCode::E_INVALID_CHARSET, ErrorCode::E_INVALID_COLLATE, ErrorCode::E_CHARSET_COLLATE_NOT_MATCH,
    ErrorCode::E_SNAPSHOT_FAILURE, ErrorCode::E_BLOCK_WRITE_FAILURE, ErrorCode::E_REBUILD_INDEX_FAILED, ErrorCode::E_INDEX_WITH_TTL,
    ErrorCode::E_ADD_JOB_FAILURE, ErrorCode::E_STOP_JOB_FAILURE, ErrorCode::E_SAVE_JOB_FAILURE, ErrorCode::E_BALANCER_FAILURE,
    ErrorCode::E_NO_INVALID_BALANCE_PLAN, ErrorCode::E_JOB_NOT_FINISHED, ErrorCode::E_TASK_REPORT_OUT_DATE,
    ErrorCode::E_BACKUP_FAILED, ErrorCode::E_BACKUP_BUILDING_INDEX, ErrorCode::E_BACKUP_SPACE_NOT_FOUND, ErrorCode::E_RESTORE_FAILURE,
    ErrorCode::E_LIST_CLUSTER_FAILURE, ErrorCode::E_LIST_CLUSTER_GET_ABS_PATH_FAILURE, ErrorCode::E_GET_META_DIR_FAILURE,
    ErrorCode::E_INVALID_JOB, ErrorCode::E_BACKUP_EMPTY_TABLE, ErrorCode::E_BACKUP_TABLE_FAILED, ErrorCode::E_SESSION_NOT_FOUND};
const int NCODES = sizeof(codes) / sizeof(codes[0]);

// One kind of request: how it is made, what of it must reach the server, what
// the server answers and what must come back.
struct RpcKind {
    const char* method;
    std::function<Str(MetaClient*, int)> go;
    std::function<Str(const void*)> seen;        // "<k>|..." of a request
    std::function<Str(int)> sent;
    std::function<std::shared_ptr<void>(int, ErrorCode, HostAddr, bool)> reply;
    std::function<Str(int)> want;
};
template <class T, class F> Str got(folly::Future<StatusOr<T>> f, F show) {
    StatusOr<T> r = std::move(f).get();
    return r.ok() ? Str(show(r.value())) : "!" + r.status().toString();
}
const char* yes(bool b) { return b ? "true" : "false"; }
#define KIND(METHOD, REQ, RESP, GO, SHOW, SEEN, SENT, FILL, WANT) \
    RpcKind{#METHOD, \
         [](MetaClient* c, int k) -> Str { (void)k; return got(c->GO, [](auto& v) -> Str { (void)v; return SHOW; }); }, \
         [](const void* p) -> Str { auto& q = *static_cast<const mc::REQ*>(p); (void)q; return SEEN; }, \
         [](int k) -> Str { (void)k; return SENT; }, \
         [](int k, ErrorCode code, HostAddr leader, bool full) -> std::shared_ptr<void> { (void)k; auto r = std::make_shared<mc::RESP>(); r->set_code(code); r->set_leader(leader); if (full) { FILL; } return r; }, \
         [](int k) -> Str { (void)k; return WANT; }}
#define EXEC(METHOD, REQ, GO, SEEN, SENT) KIND(METHOD, REQ, ExecResp, GO, yes(v), SEEN, SENT, , "true")
#define SETID(SETTER, V) { mc::ID id; id.SETTER(V); r->set_id(id); }
Str K(const Str& n) { return n.substr(1) + "|"; }        // "r12" -> "12|"
const Str SPC = "";

const std::vector<RpcKind>& kinds() {
    static const std::vector<RpcKind> v = {
        KIND(createSpace, CreateSpaceReq, ExecResp, createSpace([k] { mc::SpaceDesc d; d.set_space_name(N(k)); d.set_partition_num(k + 1); d.set_replica_factor(3); return d; }(), k % 2), I(v), K(q.get_properties().get_space_name()) + I(q.get_properties().get_partition_num()) + yes(q.get_if_not_exists()), K(N(k)) + I(k + 1) + yes(k % 2), SETID(set_space_id, k + 100), I(k + 100)),
        EXEC(dropSpace, DropSpaceReq, dropSpace(N(k), k % 2), K(q.get_space_name()) + yes(q.get_if_exists()), K(N(k)) + yes(k % 2)),
        KIND(getSpace, GetSpaceReq, GetSpaceResp, getSpace(N(k)), I(v.get_space_id()) + v.get_properties().get_space_name(), K(q.get_space_name()), K(N(k)), { mc::SpaceItem i; i.set_space_id(k + 3); mc::SpaceDesc d; d.set_space_name("s" + I(k)); i.set_properties(d); r->set_item(i); }, I(k + 3) + "s" + I(k)),
        KIND(createTag, CreateTagReq, ExecResp, createTagSchema(k + 5, N(k), SC(k), k % 2), I(v), K(q.get_tag_name()) + I(q.get_space_id()) + ss(q.get_schema()) + yes(q.get_if_not_exists()), K(N(k)) + I(k + 5) + ss(SC(k)) + yes(k % 2), SETID(set_tag_id, k + 200), I(k + 200)),
        EXEC(alterTag, AlterTagReq, alterTagSchema(k + 5, N(k), [k] { std::vector<mc::AlterSchemaItem> v(1); v[0].set_op(mc::AlterSchemaOp::CHANGE); v[0].set_schema(SC(k)); return v; }(), [k] { mc::SchemaProp p; p.set_ttl_col("t" + I(k)); return p; }()), K(q.get_tag_name()) + I(q.get_space_id()) + ss(q.get_tag_items().at(0).get_schema()) + q.get_schema_prop().ttl_col_ref().value(), K(N(k)) + I(k + 5) + ss(SC(k)) + "t" + I(k)),
        EXEC(dropTag, DropTagReq, dropTagSchema(k + 5, N(k), k % 2), K(q.get_tag_name()) + I(q.get_space_id()) + yes(q.get_if_exists()), K(N(k)) + I(k + 5) + yes(k % 2)),
        KIND(getTag, GetTagReq, GetTagResp, getTagSchema(k + 5, N(k), k * 2), ss(v), K(q.get_tag_name()) + I(q.get_space_id()) + "/" + I(q.get_version()), K(N(k)) + I(k + 5) + "/" + I(k * 2), r->set_schema(SC(k)), ss(SC(k))),
        KIND(listTags, ListTagsReq, ListTagsResp, listTagSchemas(k), each(v, [](auto& t) { return I(t.get_tag_id()) + t.get_tag_name() + ss(t.get_schema()); }), I(q.get_space_id()) + "|", I(k) + "|", { mc::TagItem t; t.set_tag_id(k + 1); t.set_tag_name(N(k)); t.set_schema(SC(k)); r->tags.push_back(t); }, I(k + 1) + N(k) + ss(SC(k)) + ","),
        KIND(createEdge, CreateEdgeReq, ExecResp, createEdgeSchema(k + 5, N(k), SC(k), k % 2), I(v), K(q.get_edge_name()) + I(q.get_space_id()) + ss(q.get_schema()) + yes(q.get_if_not_exists()), K(N(k)) + I(k + 5) + ss(SC(k)) + yes(k % 2), SETID(set_edge_type, k + 300), I(k + 300)),
        EXEC(alterEdge, AlterEdgeReq, alterEdgeSchema(k + 5, N(k), [k] { std::vector<mc::AlterSchemaItem> v(1); v[0].set_op(mc::AlterSchemaOp::ADD); v[0].set_schema(SC(k)); return v; }(), [k] { mc::SchemaProp p; p.set_ttl_col("t" + I(k)); return p; }()), K(q.get_edge_name()) + I(q.get_space_id()) + ss(q.get_edge_items().at(0).get_schema()) + q.get_schema_prop().ttl_col_ref().value(), K(N(k)) + I(k + 5) + ss(SC(k)) + "t" + I(k)),
        EXEC(dropEdge, DropEdgeReq, dropEdgeSchema(k + 5, N(k), k % 2), K(q.get_edge_name()) + I(q.get_space_id()) + yes(q.get_if_exists()), K(N(k)) + I(k + 5) + yes(k % 2)),
        KIND(getEdge, GetEdgeReq, GetEdgeResp, getEdgeSchema(k + 5, N(k), k * 2), ss(v), K(q.get_edge_name()) + I(q.get_space_id()) + "/" + I(q.get_version()), K(N(k)) + I(k + 5) + "/" + I(k * 2), r->set_schema(SC(k)), ss(SC(k))),
        KIND(listEdges, ListEdgesReq, ListEdgesResp, listEdgeSchemas(k), each(v, [](auto& t) { return I(t.get_edge_type()) + t.get_edge_name() + ss(t.get_schema()); }), I(q.get_space_id()) + "|", I(k) + "|", { mc::EdgeItem t; t.set_edge_type(k + 1); t.set_edge_name(N(k)); t.set_schema(SC(k)); r->edges.push_back(t); }, I(k + 1) + N(k) + ss(SC(k)) + ","),
        KIND(createTagIndex, CreateTagIndexReq, ExecResp, createTagIndex(k + 5, N(k), "t" + I(k), FD(k), k % 2, [k] { static thread_local Str s; s = "c" + I(k); return &s; }()), I(v), K(q.get_index_name()) + I(q.get_space_id()) + q.get_tag_name() + fd(q.get_fields()) + yes(q.get_if_not_exists()) + q.comment_ref().value(), K(N(k)) + I(k + 5) + "t" + I(k) + fd(FD(k)) + yes(k % 2) + "c" + I(k), SETID(set_index_id, k + 400), I(k + 400)),
        KIND(createEdgeIndex, CreateEdgeIndexReq, ExecResp, createEdgeIndex(k + 5, N(k), "e" + I(k), FD(k), k % 2), I(v), K(q.get_index_name()) + I(q.get_space_id()) + q.get_edge_name() + fd(q.get_fields()) + yes(q.get_if_not_exists()), K(N(k)) + I(k + 5) + "e" + I(k) + fd(FD(k)) + yes(k % 2), SETID(set_index_id, k + 500), I(k + 500)),
        EXEC(dropTagIndex, DropTagIndexReq, dropTagIndex(k + 5, N(k), k % 2), K(q.get_index_name()) + I(q.get_space_id()) + yes(q.get_if_exists()), K(N(k)) + I(k + 5) + yes(k % 2)),
        EXEC(dropEdgeIndex, DropEdgeIndexReq, dropEdgeIndex(k + 5, N(k), k % 2), K(q.get_index_name()) + I(q.get_space_id()) + yes(q.get_if_exists()), K(N(k)) + I(k + 5) + yes(k % 2)),
        KIND(getTagIndex, GetTagIndexReq, GetTagIndexResp, getTagIndex(k + 5, N(k)), ii(v), K(q.get_index_name()) + I(q.get_space_id()), K(N(k)) + I(k + 5), r->set_item(II(k)), ii(II(k))),
        KIND(getEdgeIndex, GetEdgeIndexReq, GetEdgeIndexResp, getEdgeIndex(k + 5, N(k)), ii(v), K(q.get_index_name()) + I(q.get_space_id()), K(N(k)) + I(k + 5), r->set_item(II(k)), ii(II(k))),
        KIND(listTagIndexes, ListTagIndexesReq, ListTagIndexesResp, listTagIndexes(k), each(v, ii), I(q.get_space_id()) + "|", I(k) + "|", r->items.push_back(II(k)), ii(II(k)) + ","),
        KIND(listEdgeIndexes, ListEdgeIndexesReq, ListEdgeIndexesResp, listEdgeIndexes(k), each(v, ii), I(q.get_space_id()) + "|", I(k) + "|", r->items.push_back(II(k)), ii(II(k)) + ","),
        EXEC(rebuildTagIndex, RebuildIndexReq, rebuildTagIndex(k + 5, N(k)), K(q.get_index_name()) + I(q.get_space_id()), K(N(k)) + I(k + 5)),
        EXEC(rebuildEdgeIndex, RebuildIndexReq, rebuildEdgeIndex(k + 5, N(k)), K(q.get_index_name()) + I(q.get_space_id()), K(N(k)) + I(k + 5)),
        KIND(listTagIndexStatus, ListIndexStatusReq, ListIndexStatusResp, listTagIndexStatus(k), each(v, [](auto& x) { return x.get_name() + x.get_status(); }), I(q.get_space_id()) + "|", I(k) + "|", { mc::IndexStatus x; x.set_name(N(k)); x.set_status("ok"); r->statuses.push_back(x); }, N(k) + "ok,"),
        KIND(listEdgeIndexStatus, ListIndexStatusReq, ListIndexStatusResp, listEdgeIndexStatus(k), each(v, [](auto& x) { return x.get_name() + x.get_status(); }), I(q.get_space_id()) + "|", I(k) + "|", { mc::IndexStatus x; x.set_name(N(k)); x.set_status("ok"); r->statuses.push_back(x); }, N(k) + "ok,"),
        EXEC(multiPut, MultiPutReq, multiPut(N(k), {{"a" + I(k), "b" + I(k)}, {"c", "d"}}), K(q.get_segment()) + each(q.get_pairs(), [](auto& p) { return p.key + "=" + p.value; }), K(N(k)) + "a" + I(k) + "=b" + I(k) + ",c=d,"),
        KIND(get, GetReq, GetResp, get(N(k), "key" + I(k)), v, K(q.get_segment()) + q.get_key(), K(N(k)) + "key" + I(k), r->set_value("v" + I(k)), "v" + I(k)),
        KIND(multiGet, MultiGetReq, MultiGetResp, multiGet(N(k), {"a" + I(k), "b"}), sv(v), K(q.get_segment()) + sv(q.get_keys()), K(N(k)) + "a" + I(k) + ",b,", r->set_values({"x" + I(k), "y"}), "x" + I(k) + ",y,"),
        KIND(scan, ScanReq, ScanResp, scan(N(k), "a" + I(k), "z" + I(k)), sv(v), K(q.get_segment()) + q.get_start() + "-" + q.get_end(), K(N(k)) + "a" + I(k) + "-z" + I(k), r->set_values({"x" + I(k), "y"}), "x" + I(k) + ",y,"),
        EXEC(remove, RemoveReq, remove(N(k), "a" + I(k)), K(q.get_segment()) + q.get_key(), K(N(k)) + "a" + I(k)),
        EXEC(removeRange, RemoveRangeReq, removeRange(N(k), "a" + I(k), "z" + I(k)), K(q.get_segment()) + q.get_start() + "-" + q.get_end(), K(N(k)) + "a" + I(k) + "-z" + I(k)),
        EXEC(createUser, CreateUserReq, createUser(N(k), "p" + I(k), k % 2), K(q.get_account()) + q.get_encoded_pwd() + yes(q.get_if_not_exists()), K(N(k)) + "p" + I(k) + yes(k % 2)),
        EXEC(dropUser, DropUserReq, dropUser(N(k), k % 2), K(q.get_account()) + yes(q.get_if_exists()), K(N(k)) + yes(k % 2)),
        EXEC(alterUser, AlterUserReq, alterUser(N(k), "p" + I(k)), K(q.get_account()) + q.get_encoded_pwd(), K(N(k)) + "p" + I(k)),
        EXEC(changePassword, ChangePasswordReq, changePassword(N(k), "new" + I(k), "old" + I(k)), K(q.get_account()) + q.get_new_encoded_pwd() + q.get_old_encoded_pwd(), K(N(k)) + "new" + I(k) + "old" + I(k)),
        EXEC(grantRole, GrantRoleReq, grantToUser(RI(k)), K(q.get_role_item().get_user_id()) + ri(q.get_role_item()), K(N(k)) + ri(RI(k))),
        EXEC(revokeRole, RevokeRoleReq, revokeFromUser(RI(k)), K(q.get_role_item().get_user_id()) + ri(q.get_role_item()), K(N(k)) + ri(RI(k))),
        KIND(listRoles, ListRolesReq, ListRolesResp, listRoles(k), each(v, ri), I(q.get_space_id()) + "|", I(k) + "|", r->roles.push_back(RI(k)), ri(RI(k)) + ","),
        KIND(getUserRoles, GetUserRolesReq, ListRolesResp, getUserRoles(N(k)), each(v, ri), K(q.get_account()), K(N(k)), r->roles.push_back(RI(k)), ri(RI(k)) + ","),
        KIND(balance, BalanceReq, BalanceResp, showBalance(k), each(v, [](auto& t) { return t.get_id() + I((int)t.get_result()); }), I(q.id_ref().has_value() ? *q.id_ref() : -1) + "|", I(k) + "|", { mc::BalanceTask t; t.set_id(N(k)); t.set_result(mc::TaskResult::FAILED); r->tasks.push_back(t); }, N(k) + I((int)mc::TaskResult::FAILED) + ","),
        EXEC(setConfig, SetConfigReq, setConfig(mc::ConfigModule::STORAGE, N(k), Value(int64_t(k))), K(q.get_item().get_name()) + I((int)q.get_item().get_module()) + q.get_item().get_value().toString(), K(N(k)) + I((int)mc::ConfigModule::STORAGE) + Value(int64_t(k)).toString()),
        EXEC(dropSnapshot, DropSnapshotReq, dropSnapshot(N(k)), K(q.get_name()), K(N(k))),
        EXEC(addListener, AddListenerReq, addListener(k, mc::ListenerType::ELASTICSEARCH, HV(k)), I(q.get_space_id()) + "|" + hv(q.get_hosts()) + I((int)q.get_type()), I(k) + "|" + hv(HV(k)) + "1"),
        EXEC(removeListener, RemoveListenerReq, removeListener(k, mc::ListenerType::ELASTICSEARCH), I(q.get_space_id()) + "|" + I((int)q.get_type()), I(k) + "|1"),
        KIND(listListener, ListListenerReq, ListListenerResp, listListener(k), each(v, [](auto& l) { return hs(l.get_host()) + I(l.get_part_id()); }), I(q.get_space_id()) + "|", I(k) + "|", { mc::ListenerInfo l; l.set_host(H(k)); l.set_part_id(k); r->listeners.push_back(l); }, hs(H(k)) + I(k) + ","),
        EXEC(createFTIndex, CreateFTIndexReq, createFTIndex(N(k), FI(k)), K(q.get_fulltext_index_name()) + I(q.get_index().get_space_id()) + sv(q.get_index().get_fields()), K(N(k)) + I(k + 1) + "f" + I(k) + ","),
        EXEC(dropFTIndex, DropFTIndexReq, dropFTIndex(k + 5, N(k)), K(q.get_fulltext_index_name()) + I(q.get_space_id()), K(N(k)) + I(k + 5)),
        EXEC(signInFTService, SignInFTServiceReq, signInFTService(mc::FTServiceType::ELASTICSEARCH, [k] { mc::FTClient c; c.set_host(HostAddr(N(k), 9)); c.set_user("u" + I(k)); return std::vector<mc::FTClient>{c}; }()), K(q.get_clients().at(0).get_host().host) + q.get_clients()[0].user_ref().value(), K(N(k)) + "u" + I(k)),
        EXEC(addZone, AddZoneReq, addZone(N(k), HV(k)), K(q.get_zone_name()) + hv(q.get_nodes()), K(N(k)) + hv(HV(k))),
        EXEC(dropZone, DropZoneReq, dropZone(N(k)), K(q.get_zone_name()), K(N(k))),
        EXEC(addHostIntoZone, AddHostIntoZoneReq, addHostIntoZone(H(k), N(k)), K(q.get_zone_name()) + hs(q.get_node()), K(N(k)) + hs(H(k))),
        EXEC(dropHostFromZone, DropHostFromZoneReq, dropHostFromZone(H(k), N(k)), K(q.get_zone_name()) + hs(q.get_node()), K(N(k)) + hs(H(k))),
        KIND(getZone, GetZoneReq, GetZoneResp, getZone(N(k)), hv(v), K(q.get_zone_name()), K(N(k)), r->set_hosts(HV(k)), hv(HV(k))),
        EXEC(addGroup, AddGroupReq, addGroup(N(k), {"a" + I(k), "b"}), K(q.get_group_name()) + sv(q.get_zone_names()), K(N(k)) + "a" + I(k) + ",b,"),
        EXEC(dropGroup, DropGroupReq, dropGroup(N(k)), K(q.get_group_name()), K(N(k))),
        EXEC(addZoneIntoGroup, AddZoneIntoGroupReq, addZoneIntoGroup(N(k), "g" + I(k)), K(q.get_zone_name()) + q.get_group_name(), K(N(k)) + "g" + I(k)),
        EXEC(dropZoneFromGroup, DropZoneFromGroupReq, dropZoneFromGroup(N(k), "g" + I(k)), K(q.get_zone_name()) + q.get_group_name(), K(N(k)) + "g" + I(k)),
        KIND(getGroup, GetGroupReq, GetGroupResp, getGroup(N(k)), sv(v), K(q.get_group_name()), K(N(k)), r->set_zone_names({"z" + I(k), "y"}), "z" + I(k) + ",y,"),
        KIND(getStatis, GetStatisReq, GetStatisResp, getStatis(k), I(v.get_space_vertices()), I(q.get_space_id()) + "|", I(k) + "|", { mc::StatisItem s; s.set_space_vertices(k * 7); r->set_statis(s); }, I(k * 7)),
        KIND(reportTaskFinish, ReportTaskReq, ExecResp, reportTaskFinish(k, k + 1, ErrorCode::E_USER_CANCEL, nullptr), I((int)v), I(q.get_job_id()) + "|" + I(q.get_task_id()) + "/" + I((int)q.get_code()), I(k) + "|" + I(k + 1) + "/" + I((int)ErrorCode::E_USER_CANCEL), , I((int)ErrorCode::SUCCEEDED)),
        KIND(runAdminJob, AdminJobReq, AdminJobResp, submitJob(mc::AdminJobOp::ADD, mc::AdminCmd::FLUSH, {N(k), "x"}), I(v.job_id_ref().value()), K(q.get_paras().at(0)) + I((int)q.get_op()) + I((int)q.get_cmd()) + sv(q.get_paras()), K(N(k)) + I((int)mc::AdminJobOp::ADD) + I((int)mc::AdminCmd::FLUSH) + N(k) + ",x,", { mc::AdminJobResult x; x.set_job_id(k + 2); r->set_result(x); }, I(k + 2)),
        KIND(createSession, CreateSessionReq, CreateSessionResp, createSession(N(k), H(k), "ip" + I(k)), se(v.get_session()), K(q.get_user()) + hs(q.get_graph_addr()) + q.get_client_ip(), K(N(k)) + hs(H(k)) + "ip" + I(k), r->set_session(SE(k)), se(SE(k))),
        KIND(getSession, GetSessionReq, GetSessionResp, getSession(k), se(v.get_session()), I(q.get_session_id()) + "|", I(k) + "|", r->set_session(SE(k)), se(SE(k))),
        KIND(removeSession, RemoveSessionReq, ExecResp, removeSession(k), I((int)v.get_code()), I(q.get_session_id()) + "|", I(k) + "|", , I((int)ErrorCode::SUCCEEDED)),
        KIND(updateSessions, UpdateSessionsReq, UpdateSessionsResp, updateSessions({SE(k), SE(k + 1)}), I(v.get_killed_queries().size()), I(q.get_sessions().at(0).get_session_id()) + "|" + each(q.get_sessions(), se), I(k) + "|" + se(SE(k)) + "," + se(SE(k + 1)) + ",", , "0"),
        KIND(killQuery, KillQueryReq, ExecResp, killQuery({{k, {k + 1, k + 2}}}), I((int)v.get_code()), I(q.get_kill_queries().begin()->first) + "|" + I(q.get_kill_queries().begin()->second.size()), I(k) + "|2", , I((int)ErrorCode::SUCCEEDED)),
        KIND(listParts, ListPartsReq, ListPartsResp, listParts(k, {1, k}), each(v, [](auto& p) { return I(p.get_part_id()) + hv(p.get_peers()); }), I(q.get_space_id()) + "|" + each(q.get_part_ids(), [](auto p) { return I(p); }), I(k) + "|1," + I(k) + ",", { mc::PartItem p; p.set_part_id(k); p.set_peers(HV(k)); r->parts.push_back(p); }, I(k) + hv(HV(k)) + ","),
        KIND(getPartsAlloc, GetPartsAllocReq, GetPartsAllocResp, getPartsAlloc(k), each(v, [](auto& p) { return I(p.first) + hv(p.second); }), I(q.get_space_id()) + "|", I(k) + "|", r->parts[k] = HV(k), I(k) + hv(HV(k)) + ","),
    };
    return v;
}

struct Ticket {
    int kind; ErrorCode code; int sends = 0, got = 0, done = 0, refused = 0;
    int64_t lastSend = 0; bool spaced = true; int64_t gap = 0;
    Str answer; bool back = false;
};
struct Metad {
    struct Node : simnet::Handler {
        Metad* m; int no; HostAddr addr, hint;
        std::shared_ptr<void> dispatch(const Str& method, const void* req) override { return m->serve(*this, method, req); }
    };
    std::vector<std::unique_ptr<Node>> nodes;
    std::map<int, Ticket> t;
    int leader = 0;
    bool followed = true;                     // only ever one request under way, and nothing lost: hints can be checked
    HostAddr expect;
    int64_t stolenAt = 0;
    std::map<Str, ErrorCode> reasons;         // what each refusal was reported as
    void up(int n) {
        for (int i = 0; i < n; i++) { auto x = std::make_unique<Node>(); x->m = this; x->no = i; x->addr = HostAddr("10.0.0." + std::to_string(i + 1), 9559); x->hint = HostAddr("10.0.0.1", 9559); simnet::listen(x->addr.host, x->addr.port, x.get()); nodes.push_back(std::move(x)); }
        simnet::onCall() = [this](const simnet::ConnInfo& c, const char* method, const void* req) { sent(c, method, req); };
    }
    std::vector<HostAddr> addrs() { std::vector<HostAddr> v; for (auto& n : nodes) v.push_back(n->addr); return v; }
    static const RpcKind* find(const Str& full) { Str method = full.substr(full.rfind('.') + 1); for (auto& k : kinds()) if (method == k.method) return &k; violation("a request of a kind nobody made: %s", method.c_str()); }
    Ticket& ticket(const Str& method, const void* req, int& k) {
        auto* kd = find(method);
        Str s = kd->seen(req);
        k = atoi(s.c_str());
        auto it = t.find(k);
        if (it == t.end() || &kinds()[it->second.kind] != kd) violation("%s: a request nobody made: %s", method.c_str(), s.c_str());
        Str want = kd->sent(k);
        if (s != want) violation("%s: sent as '%s' instead of '%s'", method.c_str(), s.c_str(), want.c_str());
        return it->second;
    }
    void sent(const simnet::ConnInfo& c, const char* method, const void* req) {
        NoPreempt np;
        int k; auto& x = ticket(method, req, k);
        if (x.back) violation("%s: request %d is sent again after it was answered", method, k);
        int64_t now = monoNs();
        if (x.sends && now - x.lastSend < FLAGS_meta_client_retry_interval_secs * SEC) { x.spaced = false; x.gap = now - x.lastSend; }
        ++x.sends; x.lastSend = now; 
        if (x.sends > 1) count("retries");
        if (followed && !expect.host.empty() && stolenNs() - stolenAt < SEC / 2 && (c.ip != expect.host || c.port != expect.port)) violation("%s: sent to %s although metad named %s as the leader", method, c.ip.c_str(), hs(expect).c_str());
        if (followed) { expect = HostAddr("", 0); stolenAt = stolenNs(); }
    }
    std::shared_ptr<void> serve(Node& n, const Str& method, const void* req) {
        NoPreempt np;
        int k; auto& x = ticket(method, req, k);
        auto* kd = find(method);
        if (leader != n.no) { ++x.refused; count("not_leader"); if (followed) expect = n.hint; return kd->reply(k, ErrorCode::E_LEADER_CHANGED, n.hint, false); }
        ++x.done;
        if (x.code == ErrorCode::SUCCEEDED) return kd->reply(k, x.code, HostAddr("", 0), true);
        count("refused");
        return kd->reply(k, x.code, HostAddr("", 0), k % 2);
    }
    void elect(int who, bool stale) {
        NoPreempt np;
        leader = who;
        HostAddr h = who < 0 ? HostAddr("", 0) : nodes[who]->addr;
        for (auto& n : nodes) {
            auto* p = n.get();
            if (!stale || !faultsOn() || !fault("stale_leader_hint", 1, 3)) p->hint = h;
            else simnet::at(range(T, 100000000, 8 * SEC), [this, p] { NoPreempt np2; p->hint = leader < 0 ? HostAddr("", 0) : nodes[leader]->addr; });
        }
    }
};
}  // namespace

SIM_SCENARIO(meta_rpc) {
    FLAGS_meta_client_timeout_ms = 2000; FLAGS_meta_client_retry_interval_secs = 1; FLAGS_meta_client_retry_times = choose(W, 4);
    setClockLimitNs(7200 * SEC);
    simnet::start();
    auto* m = new Metad();
    int ns = 1 + choose(W, 3);
    m->up(ns);
    bool io1 = choose(W, 2) == 0;          // one connection to each of metad, then
    auto io = std::make_shared<folly::IOThreadPoolExecutor>(io1 ? 1 : 2);
    nebula::meta::MetaClientOptions o;
    o.localHost_ = HostAddr("10.0.1.1", 44500); o.skipConfig_ = true; o.role_ = mc::HostRole::GRAPH;
    auto* c = new MetaClient(io, m->addrs(), o);
    int threads = 1 + choose(W, 3), per = 1 + choose(W, 6), next = 0, done = 0;
    bool net = faultsOn() && choose(W, 4), metad = faultsOn() && choose(W, 4);
    m->followed = threads == 1 && !net;
    note("servers=%d threads=%d requests=%d retries=%d net=%d", ns, threads, per, FLAGS_meta_client_retry_times, net);
    if (net) {
        auto& f = simnet::faults;
        static const uint32_t r[] = {0, 2000, 12000};
        f.connectRefused = r[choose(W, 3)]; f.connectLost = r[choose(W, 3)]; f.requestLost = r[choose(W, 3)]; f.replyLost = r[choose(W, 3)]; f.reset = r[choose(W, 3)]; f.slow = r[choose(W, 2)]; f.appError = r[choose(W, 2)];
    }
    if (metad) for (int i = 0, n = choose(W, 6); i < n; i++) {
        auto* s = m->nodes[choose(W, ns)].get();
        int kind = choose(W, net ? 5 : 2);
        int64_t at = range(T, 0, 12 * SEC), dur = range(T, 100000000, 6 * SEC);
        simnet::at(at, [=] {
            if (!faultsOn()) return;
            if (kind == 0) { fault("leader_change", 1, 1); m->elect(s->no, true); }
            else if (kind == 1) { fault("no_leader", 1, 1); m->elect(-1, true); simnet::at(dur, [=] { if (m->leader < 0) m->elect(s->no, true); }); }
            else if (kind == 2) { fault("server_crash", 1, 1); simnet::crash(s->addr.host, s->addr.port); simnet::at(dur, [=] { simnet::listen(s->addr.host, s->addr.port, s); }); }
            else if (kind == 3) { fault("net_partition", 1, 1); simnet::blackhole(s->addr.host, s->addr.port, true); simnet::at(dur, [=] { simnet::blackhole(s->addr.host, s->addr.port, false); }); }
            else { fault("server_bounce", 1, 1); simnet::crash(s->addr.host, s->addr.port); simnet::listen(s->addr.host, s->addr.port, s); }
        });
    }
    auto ask = [=, &next](bool mustWork, int code = -1) {
        int k; const RpcKind* kd; Ticket* x;
        { NoPreempt np; k = ++next; Ticket nt; nt.kind = choose(W, (uint32_t)kinds().size()); nt.code = code >= 0 ? codes[code] : !mustWork && choose(W, 4) == 1 ? codes[choose(W, NCODES)] : ErrorCode::SUCCEEDED; m->t[k] = nt; x = &m->t[k]; kd = &kinds()[nt.kind]; }
        int64_t t0 = monoNs(), st0 = stolenNs();
        Str a = kd->go(c, k);
        int64_t took = monoNs() - t0 - (stolenNs() - st0);
        NoPreempt np;
        x->back = true; x->answer = a;
        int limit = FLAGS_meta_client_retry_times + 1;
        note("request %d %s: %s after %d attempts", k, kd->method, a.c_str(), x->sends);
        SIM_CHECK(x->sends <= limit, "%s: %d attempts with %d retries allowed", kd->method, x->sends, limit - 1);
        SIM_CHECK(x->spaced, "%s: attempts only %lld us apart", kd->method, (long long)x->gap / 1000);
        int64_t most = limit * 4 * SEC + (limit - 1) * SEC + SEC / 2;
        SIM_CHECK(took <= most, "%s: answered after %lld ms, %lld ms at most were allowed", kd->method, (long long)took / 1000000, (long long)most / 1000000);
        if (a[0] != '!') {
            count("succeeded");
            SIM_CHECK(x->done > 0 && x->code == ErrorCode::SUCCEEDED, "%s: reported as done though %s", kd->method, x->done ? "metad refused it" : "no leader ever got it");
            SIM_CHECK(a == kd->want(k), "%s: answer '%s' instead of '%s'", kd->method, a.c_str(), kd->want(k).c_str());
        } else if (x->code == ErrorCode::SUCCEEDED) {
            count("gave_up");
            SIM_CHECK(x->sends == limit, "%s: given up after %d of %d attempts: %s", kd->method, x->sends, limit, a.c_str());
        } else {
            count("refusals_reported");
            SIM_CHECK(a != "!OK", "%s: metad's refusal %d comes back as OK", kd->method, (int)x->code);
            if (code >= 0 && x->done && x->sends == x->done && monoNs() - t0 < SEC) {          // nothing but the refusal to report
                auto was = m->reasons.emplace(a, x->code);
                SIM_CHECK(was.first->second == x->code, "%s: metad's refusals %d and %d are both reported as '%s'", kd->method, (int)x->code, (int)was.first->second, a.c_str() + 1);
            }
        }
        return a[0] != '!';
    };
    std::vector<std::thread> ts;
    for (int i = 0; i < threads; i++) ts.emplace_back([=, &done] {
        for (int j = 0; j < per; j++) { if (choose(W, 2)) sleepNs(range(T, 1000, 3 * SEC)); ask(false); }
        NoPreempt np; ++done;
    });
    SIM_CHECK(waitUntil([&] { return done == threads; }, 3600 * SEC), "a request was never answered");
    for (auto& t : ts) t.join();
    setFaults(false); setSkips(false);
    int dead = ns > 1 && choose(W, 2) ? choose(W, ns) : -1;       // one of metad stays down
    auto heal = [=] {
        NoPreempt np;
        simnet::faults = simnet::Faults(); m->followed = false;
        if (m->leader < 0 || m->leader == dead) m->leader = (dead + 1) % ns;
        for (auto& n : m->nodes) {
            n->hint = m->nodes[m->leader]->addr;
            simnet::blackhole(n->addr.host, n->addr.port, false);
            if (n->no == dead) simnet::crash(n->addr.host, n->addr.port); else simnet::listen(n->addr.host, n->addr.port, n.get());
        }
    };
    heal(); sleepNs(10 * SEC); heal();
    bool ok = false;
    for (int i = 0; i < 40 && !ok; i++) ok = ask(true);
    SIM_CHECK(ok, "with the leader up and known to all of metad that is up, forty requests in a row failed");
    for (int i = 0; i < 2 && io1; i++) { int64_t st = stolenNs(); SIM_CHECK(ask(true) || stolenNs() - st > SEC / 2, "a request failed although metad is up and the one before got through"); if (stolenNs() - st > SEC / 2) break; }
    if (choose(W, 8) == 1) for (int i = 0; i < NCODES; i++) ask(false, i);
    c->stop();
    delete c;
    io->stop();
    simnet::stop();
}
