From d85d119448b20bf7538c9dd459c077e111a5a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 01/31] fix: eventbus: re-check the locked service event, not
 the stale scan result

---
 eventbus/mysql/eventbus.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index def97c7..040c8bf 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -556,10 +556,12 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			return err
 		}
 		// 二次确认下service_event 未被处理
-		if spo.Status != ServiceEventStatusInit {
+		if currentServiceEvent.Status != ServiceEventStatusInit || currentServiceEvent.NextTime.After(time.Now()) {
 			e.logger.V(logger.LevelInfo).Info("current service_event'status it not init, ignore", "event_id", spo.EventID)
 			return nil
 		}
+		// spo 是加锁前扫描到的数据，可能已被其它实例更新，以加锁后的为准
+		*spo = *currentServiceEvent
 		defer func() {
 			if r := recover(); r != nil {
 				err := fmt.Errorf("err: %v stack:%s", r, string(debug.Stack()))
-- 
2.43.0


From 7e16baeedcab03d77c5e44537db22a7a761afab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 02/31] fix: eventbus: Dispatch writes the events and their
 service events in one transaction

---
 eventbus/mysql/eventbus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 040c8bf..8c470bd 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -269,8 +269,8 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 	}
 	// return e.getDB(ctx).Create(pos).Error
 	// 在创建event的时候顺带创建service_event，在消费时创建service_event 非常复杂，必须联表查询容易导致慢sql 问题，且容易漏建service_event。
-	return e.db.Transaction(func(tx *gorm.DB) error {
-		if err := e.getDB(ctx).Create(pos).Error; err != nil {
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Create(pos).Error; err != nil {
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
@@ -290,7 +290,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 					NextTime: po.EventCreatedAt,
 				}
 			}
-			if err := e.getDB(ctx).Create(spos).Error; err != nil {
+			if err := db.Create(spos).Error; err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From eff43f1b9e2f515001a47706a14498b24bb50d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 03/31] fix: eventbus: Commit removes the transaction record
 when its events already exist

---
 eventbus/mysql/eventbus.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 8c470bd..d9197fa 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -326,9 +326,10 @@ func (e *EventBus) Commit(ctx context.Context) error {
 	}
 
 	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != gorm.ErrRecordNotFound {
+	if err != nil && err != gorm.ErrRecordNotFound {
 		return err
 	}
+	// 事件已存在，说明之前已经提交过，只需删除事务记录
 	if err == gorm.ErrRecordNotFound {
 		err := e.Dispatch(ctx, tx.Events...)
 		if err != nil {
-- 
2.43.0


From 0e96316848fbbafe86c75653fbeda5bbf0fc0ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 04/31] fix: eventbus: retry the registration of the service
 when it failed at startup

---
 eventbus/mysql/eventbus.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index d9197fa..b1eceb2 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -165,6 +165,9 @@ type EventBus struct {
 	cb        dddfirework.DomainEventHandler
 	cleanCron *cron.Cron
 	once      sync.Once
+
+	// serviceInited 服务是否已注册，注册失败时由 Start 的轮询重试
+	serviceInited bool
 }
 
 // NewEventBus 提供领域事件直接持久化到数据库，异步查询事件并推送的功能
@@ -214,7 +217,7 @@ func NewEventBus(serviceName string, db *gorm.DB, options ...Option) *EventBus {
 		txKey:         contextKey(fmt.Sprintf("eventbus_tx_%d", time.Now().Unix())),
 		cleanCron:     cron.New(),
 	}
-	_ = eb.initService()
+	eb.serviceInited = eb.initService() == nil
 	return eb
 }
 
@@ -750,6 +753,14 @@ func (e *EventBus) Start(ctx context.Context) {
 		// 定时触发event_handler
 		ticker := time.NewTicker(e.opt.RunInterval)
 		for range ticker.C {
+			if !e.serviceInited {
+				if err := e.initService(); err != nil {
+					e.logger.Error(err, "init service failed")
+				} else {
+					e.serviceInited = true
+				}
+			}
+
 			if err := e.handleTransactions(); err != nil {
 				e.logger.Error(err, "handle transaction failed")
 			}
-- 
2.43.0


From c3093f412a82d7e43602b9c2a67c19611e460dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 05/31] fix: eventbus: clean service events and their event
 atomically

---
 eventbus/mysql/eventbus.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index b1eceb2..02dc855 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -693,13 +693,17 @@ func (e *EventBus) cleanEvents() error {
 	}
 
 	// 批量删除service_event
-	deleteServiceEvents := func(eventIDs []int64) error {
-		if err := e.db.Where("service = ?", e.serviceName).Where("event_id in ?", eventIDs).Delete(ServiceEventPO{}).Error; err != nil {
+	deleteBatch := func(db *gorm.DB, eventIDs []int64) error {
+		// 锁住event，避免多个service 并发清理时都认为event 还在被对方引用
+		if err := db.Clauses(clause.Locking{Strength: "UPDATE"}).Where("id in ?", eventIDs).Order("id").Find(&[]*EventPO{}).Error; err != nil {
+			return err
+		}
+		if err := db.Where("service = ?", e.serviceName).Where("event_id in ?", eventIDs).Delete(ServiceEventPO{}).Error; err != nil {
 			return err
 		}
 		// 假设存在多个service，经过多个service的陆续操作，则已经成功的service_event 陆续被清理，如果service_event 已无该event_id 的记录，则清理该event记录
 		var eventIDCounts []EventIDCount
-		if err := e.db.Model(&ServiceEventPO{}).Select("event_id, count(id) as count").
+		if err := db.Model(&ServiceEventPO{}).Select("event_id, count(id) as count").
 			Where("event_id in ?", eventIDs).
 			Group("event_id").Find(&eventIDCounts).Error; err != nil {
 			return err
@@ -718,11 +722,17 @@ func (e *EventBus) cleanEvents() error {
 		if len(deleteEventIDs) == 0 {
 			return nil
 		}
-		if err := e.db.Where("id in ?", deleteEventIDs).Delete(EventPO{}).Error; err != nil {
+		if err := db.Where("id in ?", deleteEventIDs).Delete(EventPO{}).Error; err != nil {
 			return err
 		}
 		return nil
 	}
+	// service_event 与event 的删除在同一事务内，避免中途失败后event 永远无法清理
+	deleteServiceEvents := func(eventIDs []int64) error {
+		return e.db.Transaction(func(db *gorm.DB) error {
+			return deleteBatch(db, eventIDs)
+		})
+	}
 	batch := 10
 	eventIDs := make([]int64, 0)
 	for rows.Next() {
-- 
2.43.0


From 55f9774d835e7c2ea17006e2c5e4a275131ea5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 06/31] fix: eventbus: blocked ordered events must not fill
 every scan and starve the others

---
 eventbus/mysql/eventbus.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 02dc855..416d9bd 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"runtime/debug"
 	"sync"
+	"sync/atomic"
 	"time"
 	"unicode/utf8"
 
@@ -168,6 +169,8 @@ type EventBus struct {
 
 	// serviceInited 服务是否已注册，注册失败时由 Start 的轮询重试
 	serviceInited bool
+	// scanOffset 下一次扫描的起始event id，0 表示从头开始
+	scanOffset atomic.Int64
 }
 
 // NewEventBus 提供领域事件直接持久化到数据库，异步查询事件并推送的功能
@@ -624,11 +627,21 @@ func (e *EventBus) handleEvents() error {
 		}
 		return err
 	}
-	scanEvents, err := e.getScanEvents(scanStartEvent.ID)
+	scanFrom := scanStartEvent.ID
+	if offset := e.scanOffset.Load(); offset > scanFrom {
+		scanFrom = offset
+	}
+	scanEvents, err := e.getScanEvents(scanFrom)
 	if err != nil {
 		e.logger.Error(err, "getScanEvents error")
 		return err
 	}
+	// 扫描满一批则下次从其后继续，否则从头开始，避免被堵塞的保序event 占满每次扫描，导致其它event 永远得不到处理
+	nextOffset := int64(0)
+	if len(scanEvents) > 0 && len(scanEvents) >= e.opt.LimitPerRun {
+		nextOffset = scanEvents[len(scanEvents)-1].Event.ID + 1
+	}
+	e.scanOffset.Store(nextOffset)
 	if len(scanEvents) == 0 {
 		e.logger.Info("find empty service_event, ignore")
 		return nil
-- 
2.43.0


From be805457351d8807f148a876835c9012ab5a8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:01 +0000
Subject: [PATCH 07/31] fix: engine: loading a root must not drop the pending
 adds and removes of other roots

---
 engine.go | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/engine.go b/engine.go
index ed20575..8ac5e9d 100644
--- a/engine.go
+++ b/engine.go
@@ -210,7 +210,7 @@ func (r *Repository) Get(ctx context.Context, root IEntity, children ...interfac
 	if err := r.stage.meta.Add(root); err != nil {
 		return err
 	}
-	return r.stage.updateSnapshot()
+	return r.stage.snapshotRoots(root)
 }
 
 // CustomGet 自定义函数获取聚合根实体，并添加到快照
@@ -226,7 +226,7 @@ func (r *Repository) CustomGet(ctx context.Context, getter func(ctx context.Cont
 		}
 	}
 
-	return r.stage.updateSnapshot()
+	return r.stage.snapshotRoots(roots...)
 }
 
 // Add 添加聚合根到仓库
@@ -253,7 +253,7 @@ func (r *Repository) Remove(roots ...IEntity) {
 	}
 	if len(toCreate) > 0 {
 		r.Add(toCreate...)
-		if err := r.stage.updateSnapshot(); err != nil {
+		if err := r.stage.snapshotRoots(toCreate...); err != nil {
 			r.appendError(err)
 			return
 		}
@@ -845,26 +845,40 @@ func childrenSnapshot(children map[string][]IEntity) map[string][]IEntity {
 
 func (e *Stage) flush() error {
 	e.snapshot = entitySnapshotPool{}
-	return e.updateSnapshot()
+	return walk(e.meta, nil, e.takeSnapshot)
 }
 
-// 更新快照，已有的不覆盖
-func (e *Stage) updateSnapshot() error {
-	return walk(e.meta, nil, func(entity, parent IEntity, children map[string][]IEntity) error {
-		if _, in := e.snapshot[entity]; in && entity != e.meta {
-			return nil
-		}
-
-		po, err := e.executor.Entity2Model(entity, parent, OpQuery)
-		if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+// snapshotRoots 把新加载的聚合根加入快照，其他聚合根的快照不变，未保存的新增和删除不能丢失
+func (e *Stage) snapshotRoots(roots ...IEntity) error {
+	meta := e.snapshot[e.meta]
+	if meta == nil {
+		meta = &entitySnapshot{children: map[string][]IEntity{}}
+		e.snapshot[e.meta] = meta
+	}
+	for _, root := range roots {
+		if err := walk(root, e.meta, e.takeSnapshot); err != nil {
 			return err
 		}
-		e.snapshot[entity] = &entitySnapshot{
-			po:       po,
-			children: childrenSnapshot(children),
-		}
+		meta.children["meta"] = append(meta.children["meta"], root)
+	}
+	return nil
+}
+
+// takeSnapshot 更新单个实体的快照，已有的不覆盖
+func (e *Stage) takeSnapshot(entity, parent IEntity, children map[string][]IEntity) error {
+	if _, in := e.snapshot[entity]; in {
 		return nil
-	})
+	}
+
+	po, err := e.executor.Entity2Model(entity, parent, OpQuery)
+	if err != nil && !errors.Is(ErrEntityNotRegister, err) {
+		return err
+	}
+	e.snapshot[entity] = &entitySnapshot{
+		po:       po,
+		children: childrenSnapshot(children),
+	}
+	return nil
 }
 
 func (e *Stage) hasSnapshot(target IEntity) bool {
-- 
2.43.0


From b731cafe872792219759e6fcbec22280a52cc554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 08/31] fix: engine: moving several children at once must not
 skip or duplicate some of them

---
 snapshot.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index b32d016..ae173fa 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -275,7 +275,8 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 
 	entities := map[IEntity]*entityChanged{}
 	for _, item := range changedItems {
-		for _, entity := range item.children {
+		// 遍历过程会修改 item.children，需要遍历拷贝
+		for _, entity := range append([]IEntity{}, item.children...) {
 			prev, ok := entities[entity]
 			if !ok {
 				entities[entity] = item
-- 
2.43.0


From 9d07b3688b2bcfedfef126adf28746378ec20e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:10 +0000
Subject: [PATCH 09/31] fix: engine: a refused Add or Remove of a root in Act
 fails the command

---
 engine.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/engine.go b/engine.go
index 8ac5e9d..dfb521d 100644
--- a/engine.go
+++ b/engine.go
@@ -164,20 +164,20 @@ func (h DomainBuilder) Build(ctx context.Context, parent IEntity, children ...in
 // RootContainer 聚合根实体容器
 type RootContainer struct {
 	stage *Stage
-	errs  []error
+	errs  *[]error // 容器以值传递给 Act，错误需要共享
 }
 
 // Add 创建聚合根实体
 func (h *RootContainer) Add(root IEntity) {
 	if err := h.stage.meta.Add(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
 // Remove 删除聚合根实体
 func (h *RootContainer) Remove(root IEntity) {
 	if err := h.stage.meta.Remove(root); err != nil {
-		h.errs = append(h.errs, err)
+		*h.errs = append(*h.errs, err)
 	}
 }
 
@@ -792,11 +792,12 @@ func (e *Stage) runCommand(ctx context.Context, c ICommand) *Result {
 			return err
 		}
 
-		container := RootContainer{stage: repo.stage}
+		errs := []error{}
+		container := RootContainer{stage: repo.stage, errs: &errs}
 		if err := c.Act(ctx, container, buildRoots...); err != nil {
 			return err
-		} else if len(container.errs) > 0 {
-			return ErrList(container.errs)
+		} else if len(errs) > 0 {
+			return ErrList(errs)
 		}
 		return nil
 	}).Save(ctx)
-- 
2.43.0


From 061809946a4c4893070a7f279bb2e533b075b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 10/31] fix: engine: post-save hooks of a command must not leak
 into other commands

---
 engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index dfb521d..b64594c 100644
--- a/engine.go
+++ b/engine.go
@@ -417,7 +417,9 @@ func WithIDGenerator(idGen IIDGenerator) IDGeneratorOption {
 type PostSaveOption PostSaveFunc
 
 func (t PostSaveOption) ApplyToOptions(opts *Options) {
-	opts.PostSaveHooks = append(opts.PostSaveHooks, PostSaveFunc(t))
+	// 限制容量，避免多个 Stage 共享引擎的底层数组
+	hooks := opts.PostSaveHooks[:len(opts.PostSaveHooks):len(opts.PostSaveHooks)]
+	opts.PostSaveHooks = append(hooks, PostSaveFunc(t))
 }
 
 func WithPostSave(f PostSaveFunc) PostSaveOption {
-- 
2.43.0


From 6b2b486610bcbaae80e346cd1eed6441cd2092d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 11/31] fix: engine: children detached or moved out of a
 removed root are deleted or moved, not lost

---
 engine.go   |  1 +
 snapshot.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/engine.go b/engine.go
index b64594c..2c14252 100644
--- a/engine.go
+++ b/engine.go
@@ -898,6 +898,7 @@ func (e *Stage) unDirty() {
 
 func (e *Stage) getEntityChanged() ([]*entityChanged, error) {
 	changed := entityDiff(e.meta, e.snapshot)
+	changed = append(changed, detachedChildren(changed, e.snapshot)...)
 	// 处理实体移动的场景
 	changed, err := handleEntityMove(changed)
 	if err != nil {
diff --git a/snapshot.go b/snapshot.go
index ae173fa..daa41c2 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -267,6 +267,56 @@ func entityDiff(parent IEntity, pool entitySnapshotPool) []*entityChanged {
 	return res
 }
 
+// detachedChildren 查找被删除实体下，先于其自身被移除的子实体，这些子实体可能被移动到其他父实体，也需要识别为删除
+func detachedChildren(changed []*entityChanged, pool entitySnapshotPool) []*entityChanged {
+	created := simpleSet{}
+	for _, item := range changed {
+		if item.changeType == newChildren {
+			for _, entity := range item.children {
+				created[entity] = 0
+			}
+		}
+	}
+
+	res := make([]*entityChanged, 0)
+	var find func(entity IEntity)
+	find = func(entity IEntity) {
+		// 被移动的实体不是真正删除，entityDiff 已经处理
+		if _, in := created[entity]; in || pool[entity] == nil {
+			return
+		}
+		current := findChildren(entity)
+		prev := pool[entity].children
+		keys := []string{}
+		for key := range prev {
+			keys = append(keys, key)
+		}
+		sort.Strings(keys)
+		for _, key := range keys {
+			detached := makeEntitySet(prev[key]).Diff(makeEntitySet(current[key])).ToSlice()
+			if len(detached) > 0 {
+				res = append(res, &entityChanged{
+					changeType: deleteChildren,
+					parent:     entity,
+					key:        key,
+					children:   detached,
+				})
+			}
+			for _, child := range prev[key] {
+				find(child)
+			}
+		}
+	}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, entity := range item.children {
+				find(entity)
+			}
+		}
+	}
+	return res
+}
+
 func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 	// 按照 new, dirty, delete 的顺序排序
 	sort.SliceStable(changedItems, func(i, j int) bool {
-- 
2.43.0


From d96559413d130d62845651c282dc66d46461d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:30 +0000
Subject: [PATCH 12/31] fix: lock/db: the renewal goroutine of Run ends when
 Run returns

---
 lock/db/sql.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 9657786..e57feb0 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -173,13 +173,23 @@ func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Contex
 	// 业务函数执行完成后，会停止renew 协程
 	defer ticker.Stop()
 	subCtx, cancel := context.WithCancel(ctx)
+	// ticker.Stop 不会关闭 ticker.C，需要通过 subCtx 通知 renew 协程退出
+	defer cancel()
 	go func() {
-		for range ticker.C {
-			if err = r.update(ctx, locker); err != nil {
+		for {
+			select {
+			case <-subCtx.Done():
+				return
+			case <-ticker.C:
+			}
+			if subCtx.Err() != nil {
+				return
+			}
+			if err := r.update(ctx, locker); err != nil {
 				// 续期失败，会通知业务函数停止执行
 				cancel()
 				r.logger.Info(fmt.Sprintf("failed to renew lock %s, error: %v", key, err))
-				break
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 51487cc83522c508789d228f53915ff87e4992d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 13/31] fix: lock/db: a lock renewed after it was read as
 expired must not be taken over

---
 lock/db/sql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index e57feb0..33d7ee8 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -115,9 +115,10 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		// key is locked
 		return nil, dddfirework.ErrEntityLocked
 	}
-	// 有记录但是数据过期
+	// 有记录但是数据过期，更新时需要再次确认过期，查询之后锁可能已经被持有者续期
 	res := r.db.WithContext(ctx).Model(&ResourceLock{}).Where("resource = ?", key).
 		Where("locker_id = ?", lock.LockerID).
+		Where("updated_at <= ?", time.Now().Add(-r.ttl)).
 		UpdateColumns(ResourceLock{UpdatedAt: time.Now(), LockerID: lockerID})
 
 	if res.Error != nil {
-- 
2.43.0


From 88b9f33a66faacbfef2872ee2fc06a1ba901f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 14/31] fix: lock/db: losing the race for a new lock reports
 ErrEntityLocked and is retried

---
 lock/db/sql.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 33d7ee8..c844eac 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -103,7 +103,7 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 		l := &ResourceLock{Resource: key, LockerID: lockerID}
 		err = r.db.WithContext(ctx).Create(l).Error
 		if err != nil {
-			if errors.Is(err, gorm.ErrDuplicatedKey) {
+			if r.isDuplicated(err) {
 				return nil, dddfirework.ErrEntityLocked
 			}
 			return nil, fmt.Errorf("failed to create resource %s lock, err: %w", key, err)
@@ -132,6 +132,14 @@ func (r *DBLock) lock(ctx context.Context, key string) (keyLock interface{}, err
 	return &lock, nil
 }
 
+// isDuplicated 判断是否唯一键冲突，gorm 没有开启 TranslateError 时返回的是驱动的原始错误
+func (r *DBLock) isDuplicated(err error) bool {
+	if translator, ok := r.db.Dialector.(gorm.ErrorTranslator); ok {
+		err = translator.Translate(err)
+	}
+	return errors.Is(err, gorm.ErrDuplicatedKey)
+}
+
 func (r *DBLock) UnLock(ctx context.Context, keyLock interface{}) error {
 	l := keyLock.(*ResourceLock)
 	res := r.db.WithContext(ctx).Where("locker_id = ? and resource = ?", l.LockerID, l.Resource).Delete(&ResourceLock{})
-- 
2.43.0


From 03e2a633cb8e017e935381601ced0a275eabaa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 15/31] fix: timer: registering a job concurrently from several
 instances succeeds

---
 d_timer/sql/timer.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 8d39b7b..3eff176 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -2,6 +2,7 @@ package sql
 
 import (
 	"context"
+	"errors"
 	stdlog "log"
 	"os"
 	"sync"
@@ -97,10 +98,26 @@ func (t *DBTimer) run(job *TimerJob) error {
 	if err := job.Reset(); err != nil {
 		return err
 	}
-	return t.db.Where(TimerJob{
-		Service: t.service,
-		Key:     job.Key,
-	}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	register := func() error {
+		return t.db.Where(TimerJob{
+			Service: t.service,
+			Key:     job.Key,
+		}).Attrs(job).FirstOrCreate(&TimerJob{}).Error
+	}
+	err := register()
+	if err != nil && t.isDuplicated(err) {
+		// 查询之后其他实例抢先注册了同一个 key，再次查询确认
+		return register()
+	}
+	return err
+}
+
+// isDuplicated 判断是否唯一键冲突，gorm 没有开启 TranslateError 时返回的是驱动的原始错误
+func (t *DBTimer) isDuplicated(err error) bool {
+	if translator, ok := t.db.Dialector.(gorm.ErrorTranslator); ok {
+		err = translator.Translate(err)
+	}
+	return errors.Is(err, gorm.ErrDuplicatedKey)
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
-- 
2.43.0


From d23a71acea5bd215b75ceee746299c61501c5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 16/31] fix: timer: a job due before the handler is registered
 must not crash the process

---
 d_timer/sql/timer.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 3eff176..0ccef20 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -39,6 +39,7 @@ type DBTimer struct {
 	service string
 	db      *gorm.DB
 	cb      ddd.TimerHandler
+	cbMu    sync.RWMutex
 	opt     Options
 	logger  logr.Logger
 	once    sync.Once
@@ -121,10 +122,24 @@ func (t *DBTimer) isDuplicated(err error) bool {
 }
 
 func (t *DBTimer) RegisterTimerHandler(cb ddd.TimerHandler) {
+	t.cbMu.Lock()
+	defer t.cbMu.Unlock()
 	t.cb = cb
 }
 
+func (t *DBTimer) handler() ddd.TimerHandler {
+	t.cbMu.RLock()
+	defer t.cbMu.RUnlock()
+	return t.cb
+}
+
 func (t *DBTimer) handleJobs(ctx context.Context) error {
+	cb := t.handler()
+	if cb == nil {
+		// Start 可以先于 RegisterTimerHandler 调用，此时到期的任务留待下次执行
+		return nil
+	}
+
 	jobs := make([]*TimerJob, 0)
 	if err := t.db.Where(
 		"service = ? and next_time <= ? and status = ?", t.service, time.Now(), TimerToRun,
@@ -147,7 +162,7 @@ func (t *DBTimer) handleJobs(ctx context.Context) error {
 				return nil
 			}
 
-			if err := t.cb(ctx, job.Key, job.Cron, job.Payload); err != nil {
+			if err := cb(ctx, job.Key, job.Cron, job.Payload); err != nil {
 				t.logger.Error(err, "timer job callback failed", "jobID", job.ID)
 			}
 			if err := job.Next(); err != nil {
-- 
2.43.0


From d1de04794fa432fc96da6cd41267b821a0099f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 17/31] fix: timer: Cancel must not remove the job of another
 service

---
 d_timer/sql/timer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d_timer/sql/timer.go b/d_timer/sql/timer.go
index 0ccef20..2a5428c 100644
--- a/d_timer/sql/timer.go
+++ b/d_timer/sql/timer.go
@@ -92,7 +92,7 @@ func (t *DBTimer) RunOnce(key string, runTime time.Time, data []byte) error {
 }
 
 func (t *DBTimer) Cancel(key string) error {
-	return t.db.Unscoped().Where(TimerJob{Key: key}).Delete(&TimerJob{}).Error
+	return t.db.Unscoped().Where(map[string]interface{}{"service": t.service, "key": key}).Delete(&TimerJob{}).Error
 }
 
 func (t *DBTimer) run(job *TimerJob) error {
-- 
2.43.0


From 56203d6646f4a1a50305f152a562fa31c6219ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 18/31] fix: eventbus/mem: stop consuming when the context ends
 instead of spinning

---
 eventbus/mem/eventbus.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eventbus/mem/eventbus.go b/eventbus/mem/eventbus.go
index 5e75442..15f8c6f 100644
--- a/eventbus/mem/eventbus.go
+++ b/eventbus/mem/eventbus.go
@@ -51,9 +51,12 @@ func (e *MemoryEventBus) Start(ctx context.Context) {
 		for {
 			select {
 			case evt := <-e.ch:
+				if ctx.Err() != nil {
+					return
+				}
 				_ = e.cb(ctx, evt)
 			case <-ctx.Done():
-				break
+				return
 			}
 		}
 	}
-- 
2.43.0


From 47f8ca30cd4d13fe490a1a37de91b0302e709d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 19/31] fix: lock/redis: a short ttl must not cut the retries
 and turn a held lock into a timeout

---
 lock/redis/redis.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lock/redis/redis.go b/lock/redis/redis.go
index 90a6e92..dda90bd 100644
--- a/lock/redis/redis.go
+++ b/lock/redis/redis.go
@@ -34,10 +34,21 @@ func NewRedisLock(cli *redis.Client, ttl time.Duration) *RedisLock {
 	return &RedisLock{cli: redislock.New(cli), ttl: ttl}
 }
 
+const (
+	// 默认固定间隔重试，最大重试30次
+	retryInterval = 100 * time.Millisecond
+	retryLimit    = 30
+)
+
 func (r *RedisLock) Lock(ctx context.Context, key string) (keyLock interface{}, err error) {
+	if _, ok := ctx.Deadline(); !ok {
+		// ctx 没有 Deadline 时 redislock 会以 ttl 作为截止时间，ttl 较短时会打断重试并返回超时，而不是 ErrEntityLocked
+		var cancel context.CancelFunc
+		ctx, cancel = context.WithTimeout(ctx, r.ttl+retryInterval*retryLimit)
+		defer cancel()
+	}
 	if keyLock, err = r.cli.Obtain(ctx, key, r.ttl, &redislock.Options{
-		// 默认固定间隔重试，最大重试30次
-		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(100*time.Millisecond), 30)},
+		RetryStrategy: redislock.LimitRetry(redislock.LinearBackoff(retryInterval), retryLimit)},
 	); err == redislock.ErrNotObtained {
 		return nil, dddfirework.ErrEntityLocked
 	}
-- 
2.43.0


From 9bb5a851102231418caf8a307ae277d999909e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 20/31] fix: pair scanned deliveries with their events by id,
 not by position

---
 eventbus/mysql/eventbus.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 416d9bd..968499d 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -432,13 +432,19 @@ func (e *EventBus) getScanEvents(scanStartEventID int64) ([]*EventTuple, error)
 	if err := e.db.Where("id in ?", eventIds).Order("id").Find(&eventPOs).Error; err != nil {
 		return nil, err
 	}
-	// eventPO与serviceEventPO 都按event id排序才能进行下一步
+	// 两次查询之间event 可能已被处理并清理，所以按event id 匹配，不能按下标
+	eventByID := make(map[int64]*EventPO, len(eventPOs))
+	for _, eventPO := range eventPOs {
+		eventByID[eventPO.ID] = eventPO
+	}
 	events := make([]*EventTuple, 0)
-	for index, eventPO := range eventPOs {
-		events = append(events, &EventTuple{
-			ServiceEvent: serviceEventPOs[index],
-			Event:        eventPO,
-		})
+	for _, serviceEventPO := range serviceEventPOs {
+		if eventPO, ok := eventByID[serviceEventPO.EventID]; ok {
+			events = append(events, &EventTuple{
+				ServiceEvent: serviceEventPO,
+				Event:        eventPO,
+			})
+		}
 	}
 	return events, nil
 }
-- 
2.43.0


From 3396949a048766e51742e26537ce30f118711110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 21/31] fix: eventbus/mysql: order events of one instant by
 their auto-increment id

---
 eventbus/mysql/eventbus.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 968499d..d855b93 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -507,10 +507,10 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 	// 找到前序event
 	precedingEvent := &EventPO{}
 	if err := tx.Where("sender = ?", eventPO.Sender).
-		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用event_id 明确下
+		// event_created_at 是最权威的前序，但是时间精度问题导致可能前序event.event_created_at可能跟当前event一样，再用自增id 明确下（event_id 的计数器会回绕，不能用于排序）
 		Where("event_created_at <= ?", eventPO.EventCreatedAt).
 		Where("id < ?", eventPO.ID).
-		Order("event_created_at desc, event_id desc").Take(precedingEvent).Error; err != nil {
+		Order("event_created_at desc, id desc").Take(precedingEvent).Error; err != nil {
 		if !errors.Is(err, gorm.ErrRecordNotFound) {
 			e.logger.V(logger.LevelInfo).Info("find preceding event error", "current event_id", spo.EventID, "err", err)
 			return err
-- 
2.43.0


From 336e03c98538f02fd4d70dbdb31e908b13c64cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 22/31] fix: a transaction checker may return any type its
 registration accepts

RegisterEventTXChecker accepts a checker whose result is convertible to
TXStatus, but onTXChecker asserted the exact type and panicked in the bus's
check goroutine, which ends the process.
---
 event.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/event.go b/event.go
index 6624c12..7da65b2 100644
--- a/event.go
+++ b/event.go
@@ -211,7 +211,7 @@ func onTXChecker(evt *DomainEvent) TXStatus {
 	}
 
 	outs := checker.f.Call([]reflect.Value{bizEvt})
-	return outs[0].Interface().(TXStatus)
+	return outs[0].Convert(txStatusType).Interface().(TXStatus)
 }
 
 type IEvent interface {
-- 
2.43.0


From 9ca1a9f97de16f87c58b303b2e4c08ab76bbdb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 23/31] fix: engine: release the locks of a command whose
 context was cancelled

---
 engine.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/engine.go b/engine.go
index 2c14252..64b39f3 100644
--- a/engine.go
+++ b/engine.go
@@ -23,6 +23,7 @@ import (
 	"reflect"
 	"sort"
 	"strings"
+	"time"
 
 	"github.com/go-logr/logr"
 	"github.com/rs/xid"
@@ -1223,6 +1224,15 @@ func (e *Stage) do(ctx context.Context) *Result {
 
 type doSave func(ctx context.Context) *Result
 
+// detachedContext 保留 ctx 携带的值，但不随 ctx 取消或超时
+type detachedContext struct {
+	context.Context
+}
+
+func (detachedContext) Deadline() (deadline time.Time, ok bool) { return time.Time{}, false }
+func (detachedContext) Done() <-chan struct{}                   { return nil }
+func (detachedContext) Err() error                              { return nil }
+
 func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 	return func(ctx context.Context) *Result {
 		sort.Strings(lockKeys)
@@ -1245,8 +1255,10 @@ func (e *Stage) runOnLock(f doSave, lockKeys ...string) doSave {
 			ls = append(ls, l)
 		}
 		defer func() {
+			// ctx 可能已被取消或超时，锁仍然需要释放
+			unlockCtx := detachedContext{ctx}
 			for _, l := range ls {
-				if err := e.locker.UnLock(ctx, l); err != nil {
+				if err := e.locker.UnLock(unlockCtx, l); err != nil {
 					e.logger.Error(err, "unlock failed")
 				}
 			}
-- 
2.43.0


From 7efebb4b0e2c34a05171c5f2cfd17d84e85fefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 24/31] fix: lock/db: Run releases its lock when its context
 was cancelled

---
 lock/db/sql.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index c844eac..18f4f8e 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -167,13 +167,23 @@ func (r *DBLock) update(ctx context.Context, keyLock interface{}) error {
 	return nil
 }
 
+// detachedContext 保留 ctx 携带的值，但不随 ctx 取消或超时
+type detachedContext struct {
+	context.Context
+}
+
+func (detachedContext) Deadline() (deadline time.Time, ok bool) { return time.Time{}, false }
+func (detachedContext) Done() <-chan struct{}                   { return nil }
+func (detachedContext) Err() error                              { return nil }
+
 func (r *DBLock) Run(ctx context.Context, key string, fn func(ctx context.Context)) error {
 	locker, err := r.Lock(ctx, key)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		if err = r.UnLock(ctx, locker); err != nil {
+		// ctx 可能已被取消，锁仍然需要释放
+		if err = r.UnLock(detachedContext{ctx}, locker); err != nil {
 			r.logger.Error(err, fmt.Sprintf("failed to unlock %s", key))
 		}
 	}() // pass parent ctx in here, or defer will use sub ctx below
-- 
2.43.0


From 0104f183ddcb8c05d6277b6fcea784086880c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 25/31] fix: eventbus: an error message that is not valid UTF-8
 must not keep the outcome from being stored

---
 eventbus/mysql/eventbus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index d855b93..f921d0e 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"runtime/debug"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -586,6 +587,8 @@ func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEve
 			if len(spo.FailedMessage) > 65535 {
 				spo.FailedMessage = spo.FailedMessage[:65535]
 			}
+			// 错误信息可能带有非法的 utf8 字节，或者被从字符中间截断，写入会被 mysql 拒绝，导致执行结果永远无法保存
+			spo.FailedMessage = strings.ToValidUTF8(spo.FailedMessage, "?")
 			spo.RunAt = time.Now()
 			// 插入或更新 service_event。 此处必须覆盖掉err 的值，目的是保证service_event 一定进到db
 			if err = tx.Save(spo).Error; err != nil {
-- 
2.43.0


From 3301333f7d54b8177a545e2222e9d3bdda9d5511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 26/31] fix: eventbus: Dispatch reads the services on the
 connection of its transaction

---
 eventbus/mysql/eventbus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index f921d0e..fc64d06 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -281,7 +281,7 @@ func (e *EventBus) Dispatch(ctx context.Context, events ...*dddfirework.DomainEv
 			return err
 		}
 		// gorm 在创建po后为对象赋值主键自增id
-		serviceNames, err := e.listService()
+		serviceNames, err := e.listService(db)
 		if err != nil {
 			return err
 		}
@@ -371,9 +371,9 @@ func (e *EventBus) initService() error {
 	return e.db.Where(ServicePO{Name: e.serviceName}).FirstOrCreate(service).Error
 }
 
-func (e *EventBus) listService() ([]string, error) {
+func (e *EventBus) listService(db *gorm.DB) ([]string, error) {
 	services := make([]*ServicePO, 0)
-	if err := e.db.Find(&services).Error; err != nil {
+	if err := db.Find(&services).Error; err != nil {
 		return nil, err
 	}
 	serviceNames := make([]string, 0)
-- 
2.43.0


From 0e00b825283ab2bcf5557864db76e8e90f403623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:13 +0000
Subject: [PATCH 27/31] fix: eventbus: Commit stores the events and removes the
 transaction record atomically

---
 eventbus/mysql/eventbus.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index fc64d06..1e19cf2 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -332,19 +332,25 @@ func (e *EventBus) Commit(ctx context.Context) error {
 		return ErrNoTransaction
 	}
 
-	err := e.getDB(ctx).Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
-	if err != nil && err != gorm.ErrRecordNotFound {
-		return err
-	}
-	// 事件已存在，说明之前已经提交过，只需删除事务记录
-	if err == gorm.ErrRecordNotFound {
-		err := e.Dispatch(ctx, tx.Events...)
-		if err != nil {
+	// 锁住事务记录，并在同一个 db 事务内写入事件和删除事务记录，避免与回查并发提交，或者中途失败后再次提交时，事件被重复发送
+	return e.getDB(ctx).Transaction(func(db *gorm.DB) error {
+		if err := db.Clauses(clause.Locking{Strength: "UPDATE"}).Where("id = ?", tx.ID).Find(&[]*Transaction{}).Error; err != nil {
 			return err
 		}
-	}
+		err := db.Where("trans_id = ?", tx.ID).First(&EventPO{}).Error
+		if err != nil && err != gorm.ErrRecordNotFound {
+			return err
+		}
+		// 事件已存在，说明之前已经提交过，只需删除事务记录
+		if err == gorm.ErrRecordNotFound {
+			err := e.Dispatch(e.ctxWithDB(ctx, db), tx.Events...)
+			if err != nil {
+				return err
+			}
+		}
 
-	return e.getDB(ctx).Delete(tx).Error
+		return db.Delete(tx).Error
+	})
 }
 
 // Rollback 回滚事务消息
-- 
2.43.0


From ee4fd6cfd9706fe704094c42daea0a767861cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:28 +0000
Subject: [PATCH 28/31] fix: lock/db: a renewal that changes no value must not
 stop the function under the lock

---
 lock/db/sql.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lock/db/sql.go b/lock/db/sql.go
index 18f4f8e..7f82bb8 100644
--- a/lock/db/sql.go
+++ b/lock/db/sql.go
@@ -162,7 +162,16 @@ func (r *DBLock) update(ctx context.Context, keyLock interface{}) error {
 		return fmt.Errorf("failed to update resource %s lock: %w", l.Resource, res.Error)
 	}
 	if res.RowsAffected == 0 {
-		return fmt.Errorf("resource %s updated by others", l.Resource)
+		// mysql 只统计值有变化的行，同一时刻内的再次续期不会改变 updated_at，此时锁仍被自己持有
+		var owned int64
+		if err := r.db.WithContext(ctx).Model(&ResourceLock{}).
+			Where("`resource` = ? AND `locker_id` = ?", l.Resource, l.LockerID).
+			Count(&owned).Error; err != nil {
+			return fmt.Errorf("failed to get resource %s lock, err: %w", l.Resource, err)
+		}
+		if owned == 0 {
+			return fmt.Errorf("resource %s updated by others", l.Resource)
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 8334cd76faf0ba4e727d87ae67e524a24b6b590b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:01 +0000
Subject: [PATCH 29/31] fix: engine: a child moved into a removed root is
 deleted once, with its hooks

---
 snapshot.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/snapshot.go b/snapshot.go
index daa41c2..e04ad99 100644
--- a/snapshot.go
+++ b/snapshot.go
@@ -354,16 +354,35 @@ func handleEntityMove(changedItems []*entityChanged) ([]*entityChanged, error) {
 }
 
 func recursiveDelete(changed []*entityChanged) []*entityChanged {
+	// 已经识别为删除的实体（例如先移动到被删除的实体下）不能重复删除
+	deleted := simpleSet{}
+	for _, item := range changed {
+		if item.changeType == deleteChildren {
+			for _, c := range item.children {
+				deleted[c] = 0
+			}
+		}
+	}
 	for _, item := range changed {
 		if item.changeType == deleteChildren {
 			for _, c := range item.children {
 				if err := walk(c, item.parent, func(entity, parent IEntity, children map[string][]IEntity) error {
 					for key, entities := range children {
+						rest := make([]IEntity, 0, len(entities))
+						for _, child := range entities {
+							if _, in := deleted[child]; !in {
+								deleted[child] = 0
+								rest = append(rest, child)
+							}
+						}
+						if len(rest) == 0 {
+							continue
+						}
 						changed = append(changed, &entityChanged{
 							changeType: deleteChildren,
 							parent:     entity,
 							key:        key,
-							children:   entities,
+							children:   rest,
 						})
 					}
 					return nil
-- 
2.43.0


From e4eedc7ed4debe6271d6526fb1d1fcf99a7767be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:23 +0000
Subject: [PATCH 30/31] fix: eventbus/mysql: an ordered event waits for every
 earlier ordered event of its sender, not only for the direct predecessor

---
 eventbus/mysql/eventbus.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/eventbus/mysql/eventbus.go b/eventbus/mysql/eventbus.go
index 1e19cf2..da981d2 100644
--- a/eventbus/mysql/eventbus.go
+++ b/eventbus/mysql/eventbus.go
@@ -532,6 +532,12 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 		e.logger.V(logger.LevelInfo).Info("preceding event is expired, see it as first event", "current event_id", spo.EventID)
 		return nil
 	}
+	// 前序event 是FIFO 时，它的更早前序都已就绪，否则（前序event 不保序，或者前序的前序失败不影响它）仍需确认更早的保序event 都已就绪
+	if precedingEvent.Event.SendType != dddfirework.SendTypeFIFO {
+		if err := e.checkEarlierEvents(tx, eventPO, precedingEvent.ID, scanStartEventID); err != nil {
+			return err
+		}
+	}
 	// 找到前序service_event
 	precedingServiceEvent := &ServiceEventPO{}
 	if err := tx.Where("service = ?", e.serviceName).
@@ -564,6 +570,31 @@ func (e *EventBus) checkPrecedingEvent(tx *gorm.DB, eventPO *EventPO, spo *Servi
 	return nil
 }
 
+// checkEarlierEvents 检查同sender 在前序event 之前的保序event 是否都已就绪
+func (e *EventBus) checkEarlierEvents(tx *gorm.DB, eventPO *EventPO, precedingEventID, scanStartEventID int64) error {
+	notReady := tx.Model(&ServiceEventPO{}).Select("event_id").Where("service = ?", e.serviceName)
+	if eventPO.Event.SendType == dddfirework.SendTypeFIFO {
+		notReady = notReady.Where("status not in ?", []ServiceEventStatus{ServiceEventStatusSuccess, ServiceEventStatusExpired})
+	} else {
+		notReady = notReady.Where("status = ?", ServiceEventStatusInit)
+	}
+	earlierEvents := make([]*EventPO, 0)
+	if err := tx.Where("sender = ?", eventPO.Sender).
+		Where("event_created_at <= ?", eventPO.EventCreatedAt).
+		Where("id >= ? and id < ?", scanStartEventID, precedingEventID).
+		Where("id in (?)", notReady).
+		Find(&earlierEvents).Error; err != nil {
+		return err
+	}
+	for _, earlier := range earlierEvents {
+		if earlier.Event.SendType == dddfirework.SendTypeFIFO || earlier.Event.SendType == dddfirework.SendTypeLaxFIFO {
+			e.logger.V(logger.LevelInfo).Info("earlier event is not ready, ignore", "current event_id", eventPO.ID, "earlier event_id", earlier.ID)
+			return ErrPrecedingEventNotReady
+		}
+	}
+	return nil
+}
+
 // handleEvent, 多实例并发场景下先锁住service_event，如果是保序event，则check前序event状态，check通过后，执行event handler
 // 执行成功，则保存执行结果，执行失败则根据RetryStrategy更新retryCount/nextTime/failedMessage
 func (e *EventBus) handleEvent(ctx context.Context, po *EventPO, spo *ServiceEventPO, scanStartEventID int64) error {
-- 
2.43.0


From 16c835f69f749c20fd4cf79f772c42a9c2cf18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:45 +0000
Subject: [PATCH 31/31] fix: a transaction of one executor must not be used by
 another one

---
 executor/mysql/executor.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/executor/mysql/executor.go b/executor/mysql/executor.go
index 8c8a3e2..9d5947f 100644
--- a/executor/mysql/executor.go
+++ b/executor/mysql/executor.go
@@ -19,7 +19,6 @@ import (
 	"context"
 	"fmt"
 	"reflect"
-	"time"
 
 	ddd "github.com/bytedance/dddfirework"
 	"gorm.io/gorm"
@@ -138,17 +137,17 @@ var opMap = map[ddd.OpType]execFunc{
 }
 
 // 确保外面拿不到内部的 key
-type contextKey string
+type contextKey struct{ name string }
 
 type Executor struct {
 	db    *gorm.DB
-	txKey contextKey
+	txKey *contextKey // 用指针区分不同的 Executor，嵌套执行时不能误用其它 Executor 的事务
 }
 
 func NewExecutor(db *gorm.DB) *Executor {
 	return &Executor{
 		db:    db,
-		txKey: contextKey(fmt.Sprintf("executor_tx_%d", time.Now().Unix())),
+		txKey: &contextKey{"executor_tx"},
 	}
 }
 
-- 
2.43.0

