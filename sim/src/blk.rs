//! The async interfaces of databases and storages, local and remote, as blocking ones:
//! every call runs the real async implementation to its end on the calling thread.
use bonsaidb_core::connection::*;
use bonsaidb_core::document::{DocumentId, Header, OwnedDocument};
use bonsaidb_core::keyvalue::{AsyncKeyValue, KeyOperation, KeyValue, Output};
use bonsaidb_core::pubsub::{AsyncPubSub, AsyncSubscriber, PubSub, Receiver, Subscriber};
use bonsaidb_core::schema::view::map::{MappedSerializedDocuments, MappedSerializedValue, Serialized};
use bonsaidb_core::schema::{CollectionName, Nameable, Schema, SchemaName, SchemaSummary, Schematic, ViewName};
use bonsaidb_core::transaction::{Executed, OperationResult, Transaction};
use bonsaidb_core::Error;
use tokio::runtime::Handle;

#[derive(Clone)]
pub struct Blk<D>(pub D, pub Handle);
impl<D: HasSession> HasSession for Blk<D> { fn session(&self) -> Option<&Session> { self.0.session() } }
impl<D: HasSchema> HasSchema for Blk<D> { fn schematic(&self) -> &Schematic { self.0.schematic() } }
impl<D: AsyncLowLevelConnection> LowLevelConnection for Blk<D> {
    fn apply_transaction(&self, t: Transaction) -> Result<Vec<OperationResult>, Error> { self.1.block_on(self.0.apply_transaction(t)) }
    fn get_from_collection(&self, id: DocumentId, c: &CollectionName) -> Result<Option<OwnedDocument>, Error> { self.1.block_on(self.0.get_from_collection(id, c)) }
    fn get_multiple_from_collection(&self, ids: &[DocumentId], c: &CollectionName) -> Result<Vec<OwnedDocument>, Error> { self.1.block_on(self.0.get_multiple_from_collection(ids, c)) }
    fn list_from_collection(&self, ids: Range<DocumentId>, o: Sort, l: Option<u32>, c: &CollectionName) -> Result<Vec<OwnedDocument>, Error> { self.1.block_on(self.0.list_from_collection(ids, o, l, c)) }
    fn list_headers_from_collection(&self, ids: Range<DocumentId>, o: Sort, l: Option<u32>, c: &CollectionName) -> Result<Vec<Header>, Error> { self.1.block_on(self.0.list_headers_from_collection(ids, o, l, c)) }
    fn count_from_collection(&self, ids: Range<DocumentId>, c: &CollectionName) -> Result<u64, Error> { self.1.block_on(self.0.count_from_collection(ids, c)) }
    fn compact_collection_by_name(&self, c: CollectionName) -> Result<(), Error> { self.1.block_on(self.0.compact_collection_by_name(c)) }
    fn query_by_name(&self, v: &ViewName, k: Option<SerializedQueryKey>, o: Sort, l: Option<u32>, p: AccessPolicy) -> Result<Vec<Serialized>, Error> { self.1.block_on(self.0.query_by_name(v, k, o, l, p)) }
    fn query_by_name_with_docs(&self, v: &ViewName, k: Option<SerializedQueryKey>, o: Sort, l: Option<u32>, p: AccessPolicy) -> Result<MappedSerializedDocuments, Error> { self.1.block_on(self.0.query_by_name_with_docs(v, k, o, l, p)) }
    fn reduce_by_name(&self, v: &ViewName, k: Option<SerializedQueryKey>, p: AccessPolicy) -> Result<Vec<u8>, Error> { self.1.block_on(self.0.reduce_by_name(v, k, p)) }
    fn reduce_grouped_by_name(&self, v: &ViewName, k: Option<SerializedQueryKey>, p: AccessPolicy) -> Result<Vec<MappedSerializedValue>, Error> { self.1.block_on(self.0.reduce_grouped_by_name(v, k, p)) }
    fn delete_docs_by_name(&self, v: &ViewName, k: Option<SerializedQueryKey>, p: AccessPolicy) -> Result<u64, Error> { self.1.block_on(self.0.delete_docs_by_name(v, k, p)) }
}
impl<D: AsyncConnection> Connection for Blk<D> {
    type Storage = BlkS<D::Storage>;
    fn storage(&self) -> Self::Storage { BlkS(self.0.storage(), self.1.clone()) }
    fn list_executed_transactions(&self, a: Option<u64>, b: Option<u32>) -> Result<Vec<Executed>, Error> { self.1.block_on(self.0.list_executed_transactions(a, b)) }
    fn last_transaction_id(&self) -> Result<Option<u64>, Error> { self.1.block_on(self.0.last_transaction_id()) }
    fn compact(&self) -> Result<(), Error> { self.1.block_on(self.0.compact()) }
    fn compact_key_value_store(&self) -> Result<(), Error> { self.1.block_on(self.0.compact_key_value_store()) }
}
impl<D: AsyncKeyValue> KeyValue for Blk<D> {
    fn execute_key_operation(&self, op: KeyOperation) -> Result<Output, Error> { self.1.block_on(self.0.execute_key_operation(op)) }
}
pub struct BlkSub<S>(pub S, pub Handle);
impl<S: AsyncSubscriber> Subscriber for BlkSub<S> {
    fn subscribe_to_bytes(&self, t: Vec<u8>) -> Result<(), Error> { self.1.block_on(self.0.subscribe_to_bytes(t)) }
    fn unsubscribe_from_bytes(&self, t: &[u8]) -> Result<(), Error> { self.1.block_on(self.0.unsubscribe_from_bytes(t)) }
    fn receiver(&self) -> &Receiver { self.0.receiver() }
}
impl<D: AsyncPubSub> PubSub for Blk<D> {
    type Subscriber = BlkSub<D::Subscriber>;
    fn create_subscriber(&self) -> Result<Self::Subscriber, Error> { Ok(BlkSub(self.1.block_on(self.0.create_subscriber())?, self.1.clone())) }
    fn publish_bytes(&self, t: Vec<u8>, p: Vec<u8>) -> Result<(), Error> { self.1.block_on(self.0.publish_bytes(t, p)) }
    fn publish_bytes_to_all(&self, t: impl IntoIterator<Item = Vec<u8>> + Send, p: Vec<u8>) -> Result<(), Error> { let t: Vec<_> = t.into_iter().collect(); self.1.block_on(self.0.publish_bytes_to_all(t, p)) }
}
#[derive(Clone)]
pub struct BlkS<S>(pub S, pub Handle);
impl<S: HasSession> HasSession for BlkS<S> { fn session(&self) -> Option<&Session> { self.0.session() } }
impl<S: AsyncStorageConnection> StorageConnection for BlkS<S> {
    type Database = Blk<S::Database>;
    type Authenticated = BlkS<S::Authenticated>;
    fn admin(&self) -> Self::Database { Blk(self.1.block_on(self.0.admin()), self.1.clone()) }
    fn database<DB: Schema>(&self, n: &str) -> Result<Self::Database, Error> { Ok(Blk(self.1.block_on(self.0.database::<DB>(n))?, self.1.clone())) }
    fn create_database_with_schema(&self, n: &str, s: SchemaName, o: bool) -> Result<(), Error> { self.1.block_on(self.0.create_database_with_schema(n, s, o)) }
    fn delete_database(&self, n: &str) -> Result<(), Error> { self.1.block_on(self.0.delete_database(n)) }
    fn list_databases(&self) -> Result<Vec<Database>, Error> { self.1.block_on(self.0.list_databases()) }
    fn list_available_schemas(&self) -> Result<Vec<SchemaSummary>, Error> { self.1.block_on(self.0.list_available_schemas()) }
    fn create_user(&self, n: &str) -> Result<u64, Error> { self.1.block_on(self.0.create_user(n)) }
    fn delete_user<'u, U: Nameable<'u, u64> + Send + Sync>(&self, u: U) -> Result<(), Error> { self.1.block_on(self.0.delete_user(u)) }
    fn set_user_password<'u, U: Nameable<'u, u64> + Send + Sync>(&self, u: U, p: SensitiveString) -> Result<(), Error> { self.1.block_on(self.0.set_user_password(u, p)) }
    fn authenticate(&self, a: Authentication) -> Result<Self::Authenticated, Error> { Ok(BlkS(self.1.block_on(self.0.authenticate(a))?, self.1.clone())) }
    fn assume_identity(&self, i: IdentityReference<'_>) -> Result<Self::Authenticated, Error> { Ok(BlkS(self.1.block_on(self.0.assume_identity(i))?, self.1.clone())) }
    fn add_permission_group_to_user<'u, 'g, U: Nameable<'u, u64> + Send + Sync, G: Nameable<'g, u64> + Send + Sync>(&self, u: U, g: G) -> Result<(), Error> { self.1.block_on(self.0.add_permission_group_to_user(u, g)) }
    fn remove_permission_group_from_user<'u, 'g, U: Nameable<'u, u64> + Send + Sync, G: Nameable<'g, u64> + Send + Sync>(&self, u: U, g: G) -> Result<(), Error> { self.1.block_on(self.0.remove_permission_group_from_user(u, g)) }
    fn add_role_to_user<'u, 'g, U: Nameable<'u, u64> + Send + Sync, G: Nameable<'g, u64> + Send + Sync>(&self, u: U, g: G) -> Result<(), Error> { self.1.block_on(self.0.add_role_to_user(u, g)) }
    fn remove_role_from_user<'u, 'g, U: Nameable<'u, u64> + Send + Sync, G: Nameable<'g, u64> + Send + Sync>(&self, u: U, g: G) -> Result<(), Error> { self.1.block_on(self.0.remove_role_from_user(u, g)) }
}

/// A small runtime for the async interfaces of local databases, if the plan has it.
pub fn runtime(plan: &simcore::run::Plan) -> Option<tokio::runtime::Runtime> {
    (plan.knob("async") > 0).then(|| tokio::runtime::Builder::new_multi_thread().worker_threads(1 + (plan.seed & 1) as usize).max_blocking_threads(8).enable_all().build().unwrap())
}
/// The async interface of the database for thread `t`, if the plan has it.
pub fn local(plan: &simcore::run::Plan, rt: &Option<tokio::runtime::Runtime>, t: usize, db: &bonsaidb_local::Database) -> Option<Blk<bonsaidb_local::AsyncDatabase>> {
    let rt = rt.as_ref()?;
    (plan.knob("async") >> (t % 4) & 1 == 1).then(|| Blk(db.clone().into_async_with_runtime(rt.handle().clone()), rt.handle().clone()))
}
