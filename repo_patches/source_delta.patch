From c4a2763bfa4dc62d58ae4e56f54c4a3bdfcc2c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 01/34] fix: keep the wait_all state alive while its lock is
 held

When every event of the set is already signalled, await_suspend dropped the last reference to the shared state while the batch lock still referred to the state's own spin lock, and unlocked freed memory.
---
 include/librf/src/event_v2.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 5c7631f..9aca35d 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -489,8 +489,7 @@ namespace librf
 
 			if (_state->_counter == 0)
 			{
-				_state = nullptr;
-				_value = true;
+				_value = true;		//lock_仍然引用着_state->_lock，_state须留待析构时释放
 
 				return false;
 			}
-- 
2.43.0


From 95eb59f2317a52e3b7b875ee6dabef5af96927e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 02/34] fix: do not walk a timed-out waiter's root when a mutex
 is unlocked

---
 source/mutex_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 942ed3c..16c0fab 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -157,7 +157,8 @@ namespace librf
 						_wait_awakes.pop_front();
 
 						//先将锁定状态转移到新的state上
-						_owner.store(state->get_root(), std::memory_order_release);
+						//等待超时的state，其根协程可能已经销毁，故只能取记录下来的地址，不能通过get_root()去访问它
+						_owner.store(state->get_parent(), std::memory_order_release);
 						_counter.fetch_add(1, std::memory_order_acq_rel);
 						
 						if (state->on_notify(this))
-- 
2.43.0


From e8f58c51915af353f323ee566e32964f941e428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 03/34] fix: release held locks and return a value when a lock
 guard is move-assigned

---
 include/librf/src/mutex_v2.inl | 23 +++++++++++++++++++++--
 include/librf/src/spinlock.h   |  3 +++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index fdadfbe..446a69d 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -177,7 +177,17 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+
+				_mutex = std::move(_Right._mutex);
+				_owner = _Right._owner;
+			}
+			return *this;
+		}
 	private:
 		mutex_impl_ptr _mutex;
 		void* _owner;
@@ -522,7 +532,16 @@ namespace librf
 		batch_unlock_t(const batch_unlock_t&) = delete;
 		batch_unlock_t& operator = (const batch_unlock_t&) = delete;
 		batch_unlock_t(batch_unlock_t&& _Right) = default;
-		batch_unlock_t& operator = (batch_unlock_t&& _Right) = default;
+		batch_unlock_t& operator = (batch_unlock_t&& _Right) noexcept
+		{
+			if (this != &_Right)
+			{
+				unlock();
+
+				_MAA = std::move(_Right._MAA);
+			}
+			return *this;
+		}
 	};
 
 	template<class... _Mtxs>
diff --git a/include/librf/src/spinlock.h b/include/librf/src/spinlock.h
index 74939b8..bef10a8 100644
--- a/include/librf/src/spinlock.h
+++ b/include/librf/src/spinlock.h
@@ -289,11 +289,14 @@ namespace librf
 		{
 			if (this != &_Right)
 			{
+				unlock();
+
 				_LkN = _Right._LkN;
 				_Right._LkN = nullptr;
 
 				_LA = std::move(_Right._LA);
 			}
+			return *this;
 		}
 	private:
 		_Cont* _LkN;
-- 
2.43.0


From 651410209610f5adffaf4f04444c6a82424a10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 04/34] fix: let a timer callback clear the timer manager that
 is firing it

---
 source/timer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/source/timer.cpp b/source/timer.cpp
index db8492b..6591f67 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -107,17 +107,18 @@ namespace librf
 		{
 			auto now_ = clock_type::now();
 
-			auto iter = _runing_timers.begin();
-			for (; iter != _runing_timers.end(); ++iter)
+			//回调函数里可能会调用clear()，故先取出到期的定时器，再调用回调函数
+			while (!_runing_timers.empty())
 			{
-				auto & kv = *iter;
-				if (kv.first > now_)
+				auto iter = _runing_timers.begin();
+				if (iter->first > now_)
 					break;
 
-				call_target_(kv.second, kv.second->st == timer_target::State::Invalid);
-			}
+				auto sptr = std::move(iter->second);
+				_runing_timers.erase(iter);
 
-			_runing_timers.erase(_runing_timers.begin(), iter);
+				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+			}
 		}
 	}
 }
\ No newline at end of file
-- 
2.43.0


From b18b0bd953d37896cf288987696c01bd8e84e9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 05/34] fix: record an exception set on a void result before it
 is awaited

---
 source/state.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/state.cpp b/source/state.cpp
index a6f551c..873095b 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -219,6 +219,7 @@ namespace librf
 	{
 		scoped_lock<lock_type> __guard(this->_mtx);
 		this->_exception = std::move(e);
+		this->_has_value.store(result_type::Exception, std::memory_order_release);
 
 		scheduler_t* sch = this->get_scheduler();
 		if (sch != nullptr)
-- 
2.43.0


From d77dd32a83a055b042a4e0e5e48ad5943f215b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 06/34] fix: destroy the coroutine a generator held before move
 assignment

---
 include/librf/src/generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 74f1a86..20269e8 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -256,6 +256,8 @@ namespace librf
 		generator_t& operator=(generator_t&& right_) noexcept
 		{
 			if (this != std::addressof(right_)) {
+				if (_Coro)
+					_Coro.destroy();
 				_Coro = right_._Coro;
 				right_._Coro = nullptr;
 			}
-- 
2.43.0


From 5cd3e72507ebc9af654dae4f89a6f0b9515b3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 07/34] fix: keep a generator's returned value until the
 consumer has read it

---
 include/librf/src/generator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/generator.h b/include/librf/src/generator.h
index 20269e8..4b1e46c 100644
--- a/include/librf/src/generator.h
+++ b/include/librf/src/generator.h
@@ -145,9 +145,12 @@ namespace librf
 			}
 
 			//template<class = std::enable_if_t<!std::is_same_v<_Ty, void>, _Ty>>
-			void return_value(_Ty const& _Value) noexcept
+			template<class _Uty = _Ty>
+			void return_value(_Uty&& _Value)
 			{
-				_CurrentValue = std::addressof(_Value);
+				//the returned object may be a local, which is gone when the consumer reads it
+				_ReturnValue.emplace(std::forward<_Uty>(_Value));
+				_CurrentValue = std::addressof(*_ReturnValue);
 			}
 			//template<class = std::enable_if_t<std::is_same_v<_Ty, void>, _Ty>>
 			void return_value() noexcept
@@ -216,6 +219,7 @@ namespace librf
 			}
 		private:
 			counted_ptr<state_type> _state = state_generator_t::_Alloc_state();
+			std::optional<_Ty> _ReturnValue;
 		};
 #endif	//DOXYGEN_SKIP_PROPERTY
 
-- 
2.43.0


From 5edeb7de129627c9b2baf7b119346a63aaa8b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 08/34] fix: free the stop state only with the last of its
 tokens

---
 include/librf/src/stop_token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 9cef883..f17a4e2 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -138,7 +138,7 @@ public:
     void remove_token_reference() noexcept
     {
         auto old_state = state_.fetch_sub(kTokenRefIncrement, std::memory_order_acq_rel);
-        if (old_state < kZeroRef)
+        if (old_state < kTokenRefIncrement + kTokenRefIncrement)
         {
             delete this;
         }
-- 
2.43.0


From 796b2246792caaaa108c1a396ec3d17fe6178873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 09/34] fix: keep the stop state when its last callback is
 removed

---
 include/librf/src/stop_token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index f17a4e2..38c37f3 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -46,7 +46,7 @@ struct stop_state
     static constexpr uint64_t kSourceRefIncrement = static_cast<uint64_t>(1u) << 33u;
 
     static constexpr uint64_t kZeroRef = kTokenRefIncrement + kSourceRefIncrement;
-    static constexpr uint64_t kLockedAndZeroRef = kZeroRef + kZeroRef;
+    static constexpr uint64_t kLockedAndZeroRef = kLockedFlag + kTokenRefIncrement + kTokenRefIncrement;
     static constexpr uint64_t kLockAndStopedFlag = kStopRequestedFlag | kLockedFlag;
     static constexpr uint64_t kUnlockAndTokenRefIncrement = kLockedFlag - kTokenRefIncrement;
     static constexpr uint64_t klockAndTokenRefIncrement = kLockedFlag + kTokenRefIncrement;
-- 
2.43.0


From 1cf4a4da59554918f3c8e20206ef5a813251e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 10/34] fix: release a finished task outside the scheduler's
 lock

---
 include/librf/src/scheduler.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/librf/src/scheduler.h b/include/librf/src/scheduler.h
index 5b6e68a..c4cd52d 100644
--- a/include/librf/src/scheduler.h
+++ b/include/librf/src/scheduler.h
@@ -163,10 +163,8 @@ namespace librf
 
 	inline void scheduler_t::del_final(state_base_t* sptr)
 	{
-#if !RESUMEF_DISABLE_MULT_THREAD
-		scoped_lock<spinlock> __guard(_lock_ready);
-#endif
-		this->_ready_task.erase(sptr);
+		//releasing the task releases what its functor captured, which may use the scheduler: do it unlocked
+		std::unique_ptr<task_t> task_ptr = del_switch(sptr);
 	}
 
 	inline void scheduler_t::add_switch(std::unique_ptr<task_t> task)
-- 
2.43.0


From 0ea8e09e9d46d0f526b171e19ad40652c72d5aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 11/34] fix: keep a returning coroutine's task until its locals
 are destroyed

---
 include/librf/src/state.inl | 8 ++++----
 source/state.cpp            | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 23a7376..516f085 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -167,7 +167,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//a coroutine is deleted in promise_final_suspend, after its locals
 				sch->del_final(this);
 		}
 	}
@@ -183,7 +183,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//a coroutine is deleted in promise_final_suspend, after its locals
 				sch->del_final(this);
 		}
 	}
@@ -274,7 +274,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//a coroutine is deleted in promise_final_suspend, after its locals
 				sch->del_final(this);
 		}
 	}
@@ -290,7 +290,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//a coroutine is deleted in promise_final_suspend, after its locals
 				sch->del_final(this);
 		}
 	}
diff --git a/source/state.cpp b/source/state.cpp
index 873095b..90af880 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -210,7 +210,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//a coroutine is deleted in promise_final_suspend, after its locals
 				sch->del_final(this);
 		}
 	}
@@ -226,7 +226,7 @@ namespace librf
 		{
 			if (this->has_handler_skip_lock())
 				sch->add_generator(this);
-			else
+			else if (!this->_is_future)		//a coroutine is deleted in promise_final_suspend, after its locals
 				sch->del_final(this);
 		}
 	}
-- 
2.43.0


From 00d8b87360d74d63a16198efe9d1a7f315cb0219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 12/34] fix: let children of when_all/when_any finish before
 they are awaited

---
 include/librf/src/when_v2.h | 12 ++++++++----
 source/when_v2.cpp          |  1 -
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f0752df..f5ed7d2 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -33,16 +33,20 @@ namespace librf
 
 			//将自己加入到通知链表里
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			scheduler_t* on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
+			bool on_await_suspend(coroutine_handle<_PromiseT> handler) noexcept
 			{
 				_PromiseT& promise = handler.promise();
 				auto* parent_state = promise.get_state();
 				scheduler_t* sch = parent_state->get_scheduler();
 
+				scoped_lock<lock_type> lock_(_lock);
+				if (_counter.load(std::memory_order_acquire) == 0)
+					return false;
+
 				this->_scheduler = sch;
 				this->_coro = handler;
 
-				return sch;
+				return true;
 			}
 
 			typedef spinlock lock_type;
@@ -74,9 +78,9 @@ namespace librf
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-			void await_suspend(coroutine_handle<_PromiseT> handler)
+			bool await_suspend(coroutine_handle<_PromiseT> handler)
 			{
-				_state->on_await_suspend(handler);
+				return _state->on_await_suspend(handler);
 			}
 
 			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 00370a2..5553571 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -39,7 +39,6 @@ namespace librf
 
 			if (_counter.fetch_sub(1, std::memory_order_acq_rel) == 1)
 			{
-				assert(this->_scheduler != nullptr);
 				if (this->_coro)
 					this->_scheduler->add_generator(this);
 
-- 
2.43.0


From a54db8192ccde4fedb1303f1142b086d4628a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 13/34] fix: keep the arguments of a stored when_all/when_any
 future

---
 include/librf/src/when_v2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index f5ed7d2..c8e85c2 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -324,7 +324,7 @@ inline namespace when_v2
 	 * @retval [co_await] std::tuple<...>。每个可等待对象的返回值，逐个存入到std::tuple<...>里面。void 返回值，存的是std::ignore。
 	 */
 	template<_WhenTaskT... _Awaitable>
-	auto when_all(_Awaitable&&... args)
+	auto when_all(_Awaitable... args)
 		-> future_t<std::tuple<detail::awaitor_result_t<_Awaitable>...>>
 	{
 		scheduler_t* sch = librf_current_scheduler();
@@ -418,7 +418,7 @@ inline namespace when_v2
 	 * @retval [co_await] std::pair<intptr_t, std::any>。第一个值指示哪个对象完成了，第二个值存访的对应的返回数据。
 	 */
 	template<_WhenTaskT... _Awaitable>
-	auto when_any(_Awaitable&&... args)
+	auto when_any(_Awaitable... args)
 		-> future_t<when_any_pair>
 	{
 		scheduler_t* sch = librf_current_scheduler();
-- 
2.43.0


From f038cc2da5f057687316445d47cc8ea1f5bcafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:38 +0000
Subject: [PATCH 14/34] fix: keep the when_all state alive while the last child
 notifies it

---
 include/librf/src/when_v2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index c8e85c2..dbcf85f 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -142,7 +142,7 @@ namespace librf
 		}
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_1(state_when_t* state, _Awaitable task, _Ty& value)
+		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, _Ty& value)
 		{
 			decltype(auto) awaitor = when_real_awaitor(task);
 
@@ -157,7 +157,7 @@ namespace librf
 		using _FuckBoolVectorReference = typename std::vector<_FuckBoolean>::reference;
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_2(state_when_t* state,_Awaitable task, _FuckBoolVectorReference<_Ty> value)
+		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, _FuckBoolVectorReference<_Ty> value)
 		{
 			auto&& awaitor = when_real_awaitor(task);
 
-- 
2.43.0


From 1b0c939cfd075fae045a4e2e7057b60073d5b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 15/34] fix: request stops and cancel timers without holding
 the scheduler's lock

---
 source/scheduler.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index c6232f1..fa3a391 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -133,10 +133,22 @@ namespace librf
 
 	LIBRF_API void scheduler_t::request_stop_all_if_possible()
 	{
-		scoped_lock<spinlock> __guard(_lock_ready);
+		//stop callbacks and timer callbacks may use the scheduler: call them unlocked
+		std::vector<stop_source> sources;
+		{
+#if !RESUMEF_DISABLE_MULT_THREAD
+			scoped_lock<spinlock> __guard(_lock_ready);
+#endif
+
+			for (auto& kv : this->_ready_task)
+			{
+				if (kv.second->_stop.stop_possible())
+					sources.push_back(kv.second->_stop);
+			}
+		}
 
-		for (auto& kv : this->_ready_task)
-			kv.second->request_stop_if_possible();
+		for (auto& source : sources)
+			source.request_stop();
 		//this->_ready_task.clear();
 		this->_timer->clear();
 	}
-- 
2.43.0


From ce1db32c576545ff67298388c92e2fd6fcf862bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 16/34] fix: do not resume the awaiter of a running coroutine
 before its result

---
 source/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/state.cpp b/source/state.cpp
index 90af880..6fbb9b7 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -135,7 +135,8 @@ namespace librf
 			return;
 		}
 		
-		if (_coro)
+		//an awaiter of a coroutine that is already running waits for its result
+		if (_coro && _has_value.load(std::memory_order_acquire) != result_type::None)
 		{
 			coroutine_handle<> handler = _coro;
 			_coro = nullptr;
-- 
2.43.0


From 9a85a608fd37d153a6415d9c197d60b4f8dc63f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 17/34] fix: take the lock when resetting an event

---
 source/event_v2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 28b9d00..00fc993 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -203,6 +203,8 @@ namespace librf
 
 		LIBRF_API void event_v2_impl::reset() noexcept
 		{
+			scoped_lock<lock_type> lock_(_lock);
+
 			_counter.store(0, std::memory_order_release);
 		}
 
-- 
2.43.0


From 9b0aa39b5516342c5dbbb7886bbb6b8c0e14b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 18/34] fix: wait_all: do not lock events under the state's
 lock, keep the state while notifying

---
 source/event_v2.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index 00fc993..ca55e04 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -78,6 +78,8 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_notify(event_v2_impl*, intptr_t idx)
 		{
+			//add_generator()之后，协程可能立即在其他线程恢复并释放本对象，故须保证本对象在解锁之后才释放
+			counted_ptr<state_event_all_t> hold_{ this };
 			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
 			if (_counter <= 0) return false;
@@ -110,14 +112,18 @@ namespace librf
 
 		LIBRF_API bool state_event_all_t::on_timeout()
 		{
-			scoped_lock<event_v2_impl::lock_type> lock_(_lock);
+			{
+				scoped_lock<event_v2_impl::lock_type> lock_(_lock);
 
-			if (_counter <= 0) return false;
+				if (_counter <= 0) return false;
 
-			_counter = 0;
-			*_result = false;
-			_thandler.reset();
+				_counter = 0;
+				*_result = false;
+				_thandler.reset();
+			}
 
+			//signal()是先锁住event再锁住state。故这里须先解锁state，再去锁住event，避免死锁
+			//_counter归零后，on_notify()不会再访问_values
 			for (sub_state_t& sub : _values)
 			{
 				if (sub.first != nullptr)
-- 
2.43.0


From cb6e62990cbae978e9401639032054ce7af1395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 19/34] fix: keep the event implementation alive while a wait
 on it is pending

---
 include/librf/src/event_v2.inl | 9 ++++++---
 source/event_v2.cpp            | 4 +---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/event_v2.inl b/include/librf/src/event_v2.inl
index 9aca35d..336fc71 100644
--- a/include/librf/src/event_v2.inl
+++ b/include/librf/src/event_v2.inl
@@ -105,7 +105,7 @@ namespace librf
 
 		struct state_event_all_t : public state_base_t
 		{
-			using sub_state_t = std::pair<counted_ptr<state_event_base_t>, detail::event_v2_impl*>;
+			using sub_state_t = std::pair<counted_ptr<state_event_base_t>, std::shared_ptr<event_v2_impl>>;
 
 			state_event_all_t(intptr_t count, bool& val)
 				: _counter(count)
@@ -189,6 +189,8 @@ namespace librf
 		awaiter(detail::event_v2_impl* evt) noexcept
 			: _event(evt)
 		{
+			if (evt != nullptr)
+				_hold = evt->shared_from_this();
 		}
 		~awaiter()
 		{
@@ -240,6 +242,7 @@ namespace librf
 
 	protected:
 		detail::event_v2_impl* _event;
+		event_impl_ptr _hold;			//等待期间，event_t可能提前销毁
 		counted_ptr<detail::state_event_t> _state;
 	};
 
@@ -476,12 +479,12 @@ namespace librf
 				if (evt->try_wait_one())
 				{
 					--_state->_counter;
-					_state->_values[idx].second = evt;
+					_state->_values[idx].second = evt->shared_from_this();
 				}
 				else
 				{
 					auto* proxy = new detail::state_event_proxy_t<detail::state_event_all_t>(_state.get(), idx);
-					_state->_values[idx] = detail::state_event_all_t::sub_state_t{ proxy, evt };
+					_state->_values[idx] = detail::state_event_all_t::sub_state_t{ proxy, evt->shared_from_this() };
 
 					evt->add_wait_list(proxy);
 				}
diff --git a/source/event_v2.cpp b/source/event_v2.cpp
index ca55e04..6a66d41 100644
--- a/source/event_v2.cpp
+++ b/source/event_v2.cpp
@@ -128,9 +128,7 @@ namespace librf
 			{
 				if (sub.first != nullptr)
 				{
-					event_v2_impl* evt = sub.second;
-					sub.second = nullptr;
-
+					auto evt = std::move(sub.second);
 					if (evt != nullptr)
 						evt->remove_wait_list(sub.first);
 				}
-- 
2.43.0


From a232cc79606b7191f9ca5e1c3df8bc0878639ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 20/34] fix: channel awaiters release the channel only after
 unlocking it

---
 include/librf/src/channel_v2.inl | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/librf/src/channel_v2.inl b/include/librf/src/channel_v2.inl
index 42cc56e..279702e 100644
--- a/include/librf/src/channel_v2.inl
+++ b/include/librf/src/channel_v2.inl
@@ -359,11 +359,12 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				std::shared_ptr<channel_type> hold_;	//解锁之后才能释放
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_read_nolock(_value))
 				{
-					_channel = nullptr;
+					hold_ = std::move(_channel);
 					return true;
 				}
 			}
@@ -373,18 +374,19 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			std::shared_ptr<channel_type> hold_;	//解锁之后才能释放
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_read_nolock(_value))
 			{
-				_channel = nullptr;
+				hold_ = std::move(_channel);
 				return false;
 			}
 
 			_state = new state_type(_channel, _value);
 			_state->on_await_suspend(handler);
 			_channel->add_read_list_nolock(_state.get());
-			_channel = nullptr;
+			hold_ = std::move(_channel);
 
 			return true;
 		}
@@ -430,11 +432,12 @@ namespace detail
 			//在多线程竞争较为多的时候，先检查是否可用，可以稍微提高点效率
 			if constexpr (optimization_for_multithreading)
 			{
+				std::shared_ptr<channel_type> hold_;	//解锁之后才能释放
 				scoped_lock<lock_type> lock_(_channel->_lock);
 
 				if (_channel->try_write_nolock(_value))
 				{
-					_channel = nullptr;
+					hold_ = std::move(_channel);
 					return true;
 				}
 			}
@@ -444,18 +447,19 @@ namespace detail
 		template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
 		bool await_suspend(coroutine_handle<_PromiseT> handler)
 		{
+			std::shared_ptr<channel_type> hold_;	//解锁之后才能释放
 			scoped_lock<lock_type> lock_(_channel->_lock);
 
 			if (_channel->try_write_nolock(_value))
 			{
-				_channel = nullptr;
+				hold_ = std::move(_channel);
 				return false;
 			}
 
 			_state = new state_type(_channel, _value);
 			_state->on_await_suspend(handler);
 			_channel->add_write_list_nolock(_state.get());
-			_channel = nullptr;
+			hold_ = std::move(_channel);
 
 			return true;
 		}
-- 
2.43.0


From d23da6187125c0b4e45b2d5ed6a53c26949c4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:31 +0000
Subject: [PATCH 21/34] fix: mutex_t::try_lock_until(tp, address) did not
 compile

---
 include/librf/src/mutex_v2.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index 446a69d..4e91beb 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -439,7 +439,7 @@ namespace librf
 	inline bool mutex_t::try_lock_until(const std::chrono::time_point<_Rep, _Period>& tp, void* unique_address)
 	{
 		assert(unique_address != nullptr);
-		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::time_point>(tp), unique_address);
+		return _mutex->try_lock_until(std::chrono::time_point_cast<clock_type::duration>(tp), unique_address);
 	}
 
 	inline void mutex_t::unlock(void* unique_address) const
-- 
2.43.0


From bdacce969cbe5c520f2cbe1986b19bf1aaa00f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 22/34] fix: a future whose result is set before it is started
 as a task kept the scheduler from ever ending

---
 source/scheduler.cpp | 6 ++----
 source/state.cpp     | 9 +++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index fa3a391..e5c99e6 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -105,10 +105,8 @@ namespace librf
 		}
 
 		//如果是单独的future，没有被co_await过，则handler是nullptr。
-		if (sptr->has_handler())
-		{
-			add_generator(sptr);
-		}
+		//此future可能在加入之前就已经有结果了，故也须加入到队列里，由resume()来删除task
+		add_generator(sptr);
 
 		return task;
 	}
diff --git a/source/state.cpp b/source/state.cpp
index 6fbb9b7..4bc78d2 100644
--- a/source/state.cpp
+++ b/source/state.cpp
@@ -157,6 +157,15 @@ namespace librf
 			handler.destroy();
 			return;
 		}
+
+		//started as a task after its result had been set: nothing else will delete the task
+		if (!_coro && _has_value.load(std::memory_order_acquire) != result_type::None)
+		{
+			scheduler_t* sch = this->get_scheduler();
+			__guard.unlock();
+
+			sch->del_final(this);
+		}
 	}
 
 	LIBRF_API bool state_future_t::has_handler() const noexcept
-- 
2.43.0


From 65e16957493bdc662596b1f6dc24b81687f093e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 23/34] fix: a value whose copy throws in co_yield left the
 finished coroutine to be resumed

---
 include/librf/src/state.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/state.inl b/include/librf/src/state.inl
index 516f085..03db05f 100644
--- a/include/librf/src/state.inl
+++ b/include/librf/src/state.inl
@@ -84,14 +84,15 @@ namespace librf
 
 		scoped_lock<lock_type> __guard(this->_mtx);
 
+		//storing the value may throw: only afterwards is the coroutine suspended
+		set_value_internal(std::forward<U>(val));
+
 		if (!handler.done())
 		{
 			if (this->_coro == nullptr)
 				this->_coro = handler;
 		}
 
-		set_value_internal(std::forward<U>(val));
-
 		if (!handler.done())
 		{
 			scheduler_t* sch = this->get_scheduler();
-- 
2.43.0


From f2c4735c214b8c6ef83f4546f9f9437947dd4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 24/34] fix: a class name that does not fit made the error text
 overrun its buffer

---
 source/scheduler.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index e5c99e6..908db32 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -28,10 +28,7 @@ namespace librf
 	{
 		if (classname)
 		{
-#if defined(__clang__) || defined(__GNUC__)
-#define sprintf_s sprintf
-#endif
-			sprintf_s(sz_future_error_buffer, "%s, code=%s", classname, future_error_string[(size_t)(fe)]);
+			snprintf(sz_future_error_buffer, sizeof(sz_future_error_buffer), "%s, code=%s", classname, future_error_string[(size_t)(fe)]);
 			return sz_future_error_buffer;
 		}
 		return future_error_string[(size_t)(fe)];
-- 
2.43.0


From c28c24239492ce9627d57cd98e94f0943d3414a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 25/34] fix: a when_all found complete was read without
 synchronising with the threads that filled it

---
 include/librf/src/when_v2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index dbcf85f..144040b 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -74,7 +74,7 @@ namespace librf
 
 			bool await_ready() noexcept
 			{
-				return _state->_counter.load(std::memory_order_relaxed) == 0;
+				return _state->_counter.load(std::memory_order_acquire) == 0;
 			}
 
 			template<class _PromiseT> requires(traits::is_promise_v<_PromiseT>)
-- 
2.43.0


From e6bf0fa2abaf2f39d9fb15903c6f6600f57d1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:54 +0000
Subject: [PATCH 26/34] fix: awaiting or starting a future wrote its scheduler
 without the lock under which another thread setting the result reads it

---
 include/librf/src/state.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/state.h b/include/librf/src/state.h
index e4ed56e..3b94da4 100644
--- a/include/librf/src/state.h
+++ b/include/librf/src/state.h
@@ -38,7 +38,7 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept;
 
-		void set_scheduler(scheduler_t* sch) noexcept
+		virtual void set_scheduler(scheduler_t* sch) noexcept
 		{
 			_scheduler = sch;
 		}
@@ -138,6 +138,13 @@ namespace librf
 		LIBRF_API virtual bool has_handler() const  noexcept override;
 		LIBRF_API virtual state_base_t* get_parent() const noexcept override;
 
+		//another thread may be setting the result meanwhile
+		virtual void set_scheduler(scheduler_t* sch) noexcept override
+		{
+			scoped_lock<lock_type> __guard(this->_mtx);
+			_scheduler = sch;
+		}
+
 		inline bool is_ready() const noexcept
 		{
 #pragma warning(disable : 6326)	//warning C6326: Potential comparison of a constant with another constant.
-- 
2.43.0


From 9eff205d6b07ae1ac95f2fb25daaa33ee6b1df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:54 +0000
Subject: [PATCH 27/34] fix: two threads making one stop source possible raced
 on its state pointer

---
 include/librf/src/stop_token.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/librf/src/stop_token.h b/include/librf/src/stop_token.h
index 38c37f3..e4db6df 100644
--- a/include/librf/src/stop_token.h
+++ b/include/librf/src/stop_token.h
@@ -459,7 +459,9 @@ public:
 
 	void make_sure_possible()
 	{
-        if (state_ == nullptr)
+        if (std::atomic_load_explicit(
+            reinterpret_cast<std::atomic<details::stop_state*>*>(&state_),
+            std::memory_order_acquire) == nullptr)
         {
             details::stop_state* st = new details::stop_state();
             details::stop_state* tmp = nullptr;
-- 
2.43.0


From 4f8269ba9c34adc24c7691608b1843eb26294f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:54 +0000
Subject: [PATCH 28/34] fix: a timer stopped by another thread could fire as
 not cancelled though stop() had succeeded

---
 include/librf/src/timer.h |  3 ++-
 source/timer.cpp          | 17 ++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index fae73a5..2bfa1a9 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -1,4 +1,5 @@
 ﻿#pragma once
+#include <atomic>
 #include <memory>
 
 namespace librf
@@ -27,7 +28,7 @@ namespace librf
 			};
 			timer_clock_type::time_point	tp;
 			timer_callback_type				cb;
-			State							st = State::Invalid;
+			std::atomic<State>				st = State::Invalid;	//stop() may be called on another thread
 #if _DEBUG
 		private:
 			timer_manager *					_manager = nullptr;
diff --git a/source/timer.cpp b/source/timer.cpp
index 6591f67..b904bd0 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -15,7 +15,8 @@ namespace librf
 	LIBRF_API void timer_manager::call_target_(const timer_target_ptr & sptr, bool canceld)
 	{
 		auto cb = std::move(sptr->cb);
-		sptr->st = timer_target::State::Invalid;
+		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
+			canceld = true;
 #if _DEBUG
 		sptr->_manager = nullptr;
 #endif
@@ -62,14 +63,12 @@ namespace librf
 
 	LIBRF_API bool timer_manager::stop(const timer_target_ptr & sptr)
 	{
-		if (!sptr || sptr->st == timer_target::State::Invalid) 
+		if (!sptr)
 			return false;
 #if _DEBUG
 		assert(sptr->_manager == this);
 #endif
-		sptr->st = timer_target::State::Invalid;
-
-		return true;
+		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;
 	}
 
 	LIBRF_API void timer_manager::update()
@@ -89,14 +88,14 @@ namespace librf
 
 				for (auto& sptr : _atimer)
 				{
-					if (sptr->st == timer_target::State::Added)
+					auto st = timer_target::State::Added;
+					if (sptr->st.compare_exchange_strong(st, timer_target::State::Runing))
 					{
-						sptr->st = timer_target::State::Runing;
 						_runing_timers.insert({ sptr->tp, sptr });
 					}
 					else
 					{
-						assert(sptr->st == timer_target::State::Invalid);
+						assert(st == timer_target::State::Invalid);
 						call_target_(sptr, true);
 					}
 				}
@@ -117,7 +116,7 @@ namespace librf
 				auto sptr = std::move(iter->second);
 				_runing_timers.erase(iter);
 
-				call_target_(sptr, sptr->st == timer_target::State::Invalid);
+				call_target_(sptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 627ebe16d45dde0bea0ea1845bc54d0c4f7f43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:20 +0000
Subject: [PATCH 29/34] fix: a stopped timer kept its callback, and the
 scheduler busy, until its deadline

---
 include/librf/src/timer.h |  3 ++-
 source/timer.cpp          | 30 +++++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/librf/src/timer.h b/include/librf/src/timer.h
index 2bfa1a9..4b10c60 100644
--- a/include/librf/src/timer.h
+++ b/include/librf/src/timer.h
@@ -146,9 +146,10 @@ namespace librf
 #endif
 		timer_vector_type	_added_timers;
 		timer_map_type		_runing_timers;
+		std::atomic<intptr_t>	_stopped_count = 0;	//stopped timers whose callbacks have not been told yet
 
 		LIBRF_API timer_target_ptr add_(const timer_target_ptr & sptr);
-		LIBRF_API static void call_target_(const timer_target_ptr & sptr, bool canceld);
+		LIBRF_API void call_target_(const timer_target_ptr & sptr, bool canceld);
 #endif
 	};
 
diff --git a/source/timer.cpp b/source/timer.cpp
index b904bd0..4fba6a1 100644
--- a/source/timer.cpp
+++ b/source/timer.cpp
@@ -16,7 +16,10 @@ namespace librf
 	{
 		auto cb = std::move(sptr->cb);
 		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
+		{
 			canceld = true;
+			_stopped_count.fetch_sub(1, std::memory_order_relaxed);
+		}
 #if _DEBUG
 		sptr->_manager = nullptr;
 #endif
@@ -68,7 +71,11 @@ namespace librf
 #if _DEBUG
 		assert(sptr->_manager == this);
 #endif
-		return sptr->st.exchange(timer_target::State::Invalid) != timer_target::State::Invalid;
+		if (sptr->st.exchange(timer_target::State::Invalid) == timer_target::State::Invalid)
+			return false;
+
+		_stopped_count.fetch_add(1, std::memory_order_relaxed);
+		return true;
 	}
 
 	LIBRF_API void timer_manager::update()
@@ -104,6 +111,27 @@ namespace librf
 
 		if (unlikely(_runing_timers.size() > 0))
 		{
+			//被停止的定时器仍然持有回调函数。一旦其占多数，就不再等到期，直接清理掉
+			if (unlikely(_stopped_count.load(std::memory_order_relaxed) * 2 > static_cast<intptr_t>(_runing_timers.size())))
+			{
+				timer_vector_type stopped;
+				for (auto iter = _runing_timers.begin(); iter != _runing_timers.end();)
+				{
+					if (iter->second->st == timer_target::State::Invalid)
+					{
+						stopped.push_back(std::move(iter->second));
+						iter = _runing_timers.erase(iter);
+					}
+					else
+					{
+						++iter;
+					}
+				}
+
+				for (auto& sptr : stopped)
+					call_target_(sptr, true);
+			}
+
 			auto now_ = clock_type::now();
 
 			//回调函数里可能会调用clear()，故先取出到期的定时器，再调用回调函数
-- 
2.43.0


From 186deee1df748751843e8dd2c02af4fd98eb2e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:57 +0000
Subject: [PATCH 30/34] fix: a lock attempt that timed out stayed in the
 mutex's waiter list until the next unlock

---
 include/librf/src/mutex_v2.inl |  8 +++++++-
 source/mutex_v2.cpp            | 17 +++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/librf/src/mutex_v2.inl b/include/librf/src/mutex_v2.inl
index 4e91beb..a5ac085 100644
--- a/include/librf/src/mutex_v2.inl
+++ b/include/librf/src/mutex_v2.inl
@@ -5,6 +5,7 @@ namespace librf
 	namespace detail
 	{
 		struct state_mutex_t : public state_base_t
+							 , public intrusive_link_node<state_mutex_t, counted_ptr<state_mutex_t>>
 		{
 			state_mutex_t(mutex_v2_impl*& val)
 				: _value(&val)
@@ -37,6 +38,10 @@ namespace librf
 			using clock_type = std::chrono::system_clock;
 
 			mutex_v2_impl() {}
+			~mutex_v2_impl()
+			{
+				for (; _wait_awakes.try_pop() != nullptr;);
+			}
 
 			inline void* owner() noexcept
 			{
@@ -53,10 +58,11 @@ namespace librf
 
 			using lock_type = std::conditional_t<USE_SPINLOCK, spinlock, std::recursive_mutex>;
 			using state_mutex_ptr = counted_ptr<state_mutex_t>;
-			using wait_queue_type = std::list<state_mutex_ptr>;
+			using wait_queue_type = intrusive_link_queue<state_mutex_t, state_mutex_ptr>;
 
 			LIBRF_API bool try_lock_lockless(void* sch) noexcept;			//内部不加锁，加锁由外部来进行
 			LIBRF_API void add_wait_list_lockless(state_mutex_t* state);	//内部不加锁，加锁由外部来进行
+			LIBRF_API void remove_wait_list(state_mutex_t* state);	//内部加锁
 
 			lock_type _lock;									//保证访问本对象是线程安全的
 		private:
diff --git a/source/mutex_v2.cpp b/source/mutex_v2.cpp
index 16c0fab..5e6edbd 100644
--- a/source/mutex_v2.cpp
+++ b/source/mutex_v2.cpp
@@ -62,6 +62,9 @@ namespace librf
 			mutex_v2_impl** oldValue = _value.load(std::memory_order_acquire);
 			if (oldValue != nullptr && _value.compare_exchange_strong(oldValue, nullptr, std::memory_order_acq_rel))
 			{
+				mutex_v2_impl* mtx = *oldValue;
+				if (mtx != nullptr)
+					mtx->remove_wait_list(this);
 				*oldValue = nullptr;
 				_thandler.reset();
 
@@ -151,11 +154,9 @@ namespace librf
 				{
 					_owner.store(nullptr, std::memory_order_relaxed);
 
-					while (!_wait_awakes.empty())
+					state_mutex_ptr state;
+					while ((state = _wait_awakes.try_pop()) != nullptr)
 					{
-						state_mutex_ptr state = _wait_awakes.front();
-						_wait_awakes.pop_front();
-
 						//先将锁定状态转移到新的state上
 						//等待超时的state，其根协程可能已经销毁，故只能取记录下来的地址，不能通过get_root()去访问它
 						_owner.store(state->get_parent(), std::memory_order_release);
@@ -182,6 +183,14 @@ namespace librf
 
 			_wait_awakes.push_back(state);
 		}
+
+		LIBRF_API void mutex_v2_impl::remove_wait_list(state_mutex_t* state)
+		{
+			assert(state != nullptr);
+
+			scoped_lock<lock_type> lock_(_lock);
+			_wait_awakes.erase(state);
+		}
 	}
 
 	LIBRF_API mutex_t::mutex_t()
-- 
2.43.0


From 1056fb70545a25a78fa44abefb6809f2a30e5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:57 +0000
Subject: [PATCH 31/34] fix: results of when_all were written into freed memory
 when its future had been dropped

---
 include/librf/src/when_v2.h | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 144040b..6c86de9 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -142,54 +142,51 @@ namespace librf
 		}
 
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, _Ty& value)
+		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<_Ty> value)
 		{
 			decltype(auto) awaitor = when_real_awaitor(task);
 
 			if constexpr (std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
 			else
-				value = co_await awaitor;
+				*value = co_await awaitor;
 			state->on_notify_one();
 		};
 
-		template<class _FuckBoolean>
-		using _FuckBoolVectorReference = typename std::vector<_FuckBoolean>::reference;
-
 		template<_WhenTaskT _Awaitable, class _Ty>
-		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, _FuckBoolVectorReference<_Ty> value)
+		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<std::vector<_Ty>> values, size_t idx)
 		{
 			auto&& awaitor = when_real_awaitor(task);
 
 			if constexpr(std::is_same_v<_Ty, ignore_type>)
 				co_await awaitor;
 			else
-				value = co_await awaitor;
+				(*values)[idx] = co_await awaitor;
 			state->on_notify_one();
 		};
 
 		template<class _Tup, size_t _Idx>
-		inline void when_all_one__(scheduler_t& , state_when_t*, _Tup& )
+		inline void when_all_one__(scheduler_t& , state_when_t*, const std::shared_ptr<_Tup>& )
 		{
 		}
 
 		template<class _Tup, size_t _Idx, _WhenTaskT _Awaitable, _WhenTaskT... _Rest>
-		inline void when_all_one__(scheduler_t& sch, state_when_t* state, _Tup& values, _Awaitable&& awaitable, _Rest&&... rest)
+		inline void when_all_one__(scheduler_t& sch, state_when_t* state, const std::shared_ptr<_Tup>& values, _Awaitable&& awaitable, _Rest&&... rest)
 		{
-			sch + when_all_connector_1(state, std::forward<_Awaitable>(awaitable), std::get<_Idx>(values));
+			sch + when_all_connector_1(state, std::forward<_Awaitable>(awaitable), std::shared_ptr<std::tuple_element_t<_Idx, _Tup>>(values, &std::get<_Idx>(*values)));
 
 			when_all_one__<_Tup, _Idx + 1, _Rest...>(sch, state, values, std::forward<_Rest>(rest)...);
 		}
 
 		template<class _Val, _WhenIterT _Iter>
-		inline void when_all_range__(scheduler_t& sch, state_when_t* state, std::vector<_Val> & values, _Iter begin, _Iter end)
+		inline void when_all_range__(scheduler_t& sch, state_when_t* state, const std::shared_ptr<std::vector<_Val>>& values, _Iter begin, _Iter end)
 		{
 			using _Awaitable = std::remove_reference_t<decltype(*begin)>;
 
 			intptr_t _Idx = 0;
 			for (; begin != end; ++begin, ++_Idx)
 			{
-				sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values[_Idx]);
+				sch + when_all_connector_2<_Awaitable, _Val>(state, *begin, values, static_cast<size_t>(_Idx));
 			}
 		}
 
@@ -279,7 +276,7 @@ inline namespace when_v2
 		using tuple_type = std::tuple<detail::awaitor_result_t<_Awaitable>...>;
 
 		detail::when_future_t<tuple_type> awaitor{ sizeof...(_Awaitable) };
-		detail::when_all_one__<tuple_type, 0u, _Awaitable...>(sch, awaitor._state.get(), *awaitor._values, std::forward<_Awaitable>(args)...);
+		detail::when_all_one__<tuple_type, 0u, _Awaitable...>(sch, awaitor._state.get(), awaitor._values, std::forward<_Awaitable>(args)...);
 
 		return awaitor;
 	}
@@ -300,7 +297,7 @@ inline namespace when_v2
 
 		detail::when_future_t<vector_type> awaitor{ std::distance(begin, end) };
 		awaitor._values->resize(end - begin);
-		when_all_range__(sch, awaitor._state.get(), *awaitor._values, begin, end);
+		when_all_range__(sch, awaitor._state.get(), awaitor._values, begin, end);
 
 		return awaitor;
 	}
-- 
2.43.0


From 48b4900888e1fd23b734662eca89d3e6828468e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:57 +0000
Subject: [PATCH 32/34] fix: when_all and when_any never completed when a child
 ended with an exception

---
 include/librf/src/when_v2.h | 80 +++++++++++++++++++++++++------------
 source/when_v2.cpp          | 14 +++++++
 2 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 6c86de9..3418220 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -29,6 +29,8 @@ namespace librf
 
 			LIBRF_API void on_cancel() noexcept;
 			LIBRF_API bool on_notify_one();
+			LIBRF_API void set_exception(std::exception_ptr e) noexcept;
+			LIBRF_API void rethrow_exception();
 			LIBRF_API bool on_timeout();
 
 			//将自己加入到通知链表里
@@ -52,6 +54,7 @@ namespace librf
 			typedef spinlock lock_type;
 			lock_type _lock;
 			std::atomic<intptr_t> _counter;
+			std::exception_ptr _exception;
 		};
 
 		template<class _Ty>
@@ -83,8 +86,9 @@ namespace librf
 				return _state->on_await_suspend(handler);
 			}
 
-			value_type await_resume() noexcept(std::is_nothrow_move_constructible_v<value_type>)
+			value_type await_resume()
 			{
+				_state->rethrow_exception();
 				return std::move(*_values);
 			}
 		};
@@ -144,24 +148,38 @@ namespace librf
 		template<_WhenTaskT _Awaitable, class _Ty>
 		future_t<> when_all_connector_1(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<_Ty> value)
 		{
-			decltype(auto) awaitor = when_real_awaitor(task);
+			try
+			{
+				decltype(auto) awaitor = when_real_awaitor(task);
 
-			if constexpr (std::is_same_v<_Ty, ignore_type>)
-				co_await awaitor;
-			else
-				*value = co_await awaitor;
+				if constexpr (std::is_same_v<_Ty, ignore_type>)
+					co_await awaitor;
+				else
+					*value = co_await awaitor;
+			}
+			catch (...)
+			{
+				state->set_exception(std::current_exception());
+			}
 			state->on_notify_one();
 		};
 
 		template<_WhenTaskT _Awaitable, class _Ty>
 		future_t<> when_all_connector_2(counted_ptr<state_when_t> state, _Awaitable task, std::shared_ptr<std::vector<_Ty>> values, size_t idx)
 		{
-			auto&& awaitor = when_real_awaitor(task);
+			try
+			{
+				auto&& awaitor = when_real_awaitor(task);
 
-			if constexpr(std::is_same_v<_Ty, ignore_type>)
-				co_await awaitor;
-			else
-				(*values)[idx] = co_await awaitor;
+				if constexpr(std::is_same_v<_Ty, ignore_type>)
+					co_await awaitor;
+				else
+					(*values)[idx] = co_await awaitor;
+			}
+			catch (...)
+			{
+				state->set_exception(std::current_exception());
+			}
 			state->on_notify_one();
 		};
 
@@ -197,29 +215,41 @@ namespace librf
 		{
 			assert(idx >= 0);
 
-			auto awaitor = when_real_awaitor(task);
+			try
+			{
+				auto awaitor = when_real_awaitor(task);
 
-			using value_type = awaitor_result_t<decltype(awaitor)>;
+				using value_type = awaitor_result_t<decltype(awaitor)>;
 
-			if constexpr (std::is_same_v<value_type, ignore_type>)
-			{
-				co_await awaitor;
+				if constexpr (std::is_same_v<value_type, ignore_type>)
+				{
+					co_await awaitor;
 
-				intptr_t oldValue = -1;
-				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+					intptr_t oldValue = -1;
+					if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+					{
+						state->on_notify_one();
+					}
+				}
+				else
 				{
-					state->on_notify_one();
+					decltype(auto) result = co_await awaitor;
+
+					intptr_t oldValue = -1;
+					if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+					{
+						value->second = std::move(result);
+
+						state->on_notify_one();
+					}
 				}
 			}
-			else
+			catch (...)
 			{
-				decltype(auto) result = co_await awaitor;
-
 				intptr_t oldValue = -1;
-				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx))
+				if (reinterpret_cast<std::atomic<intptr_t>&>(value->first).compare_exchange_strong(oldValue, idx) || oldValue == idx)
 				{
-					value->second = std::move(result);
-
+					state->set_exception(std::current_exception());
 					state->on_notify_one();
 				}
 			}
diff --git a/source/when_v2.cpp b/source/when_v2.cpp
index 5553571..3b56533 100644
--- a/source/when_v2.cpp
+++ b/source/when_v2.cpp
@@ -47,6 +47,20 @@ namespace librf
 			return false;
 		}
 
+		LIBRF_API void state_when_t::set_exception(std::exception_ptr e) noexcept
+		{
+			scoped_lock<lock_type> lock_(_lock);
+
+			if (!_exception)
+				_exception = std::move(e);
+		}
+
+		LIBRF_API void state_when_t::rethrow_exception()
+		{
+			if (_exception)
+				std::rethrow_exception(std::exchange(_exception, nullptr));
+		}
+
 		LIBRF_API bool state_when_t::on_timeout()
 		{
 			scoped_lock<lock_type> lock_(_lock);
-- 
2.43.0


From 8f6955324dbc02f9b2a5601966a1f0525e08e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:35 +0000
Subject: [PATCH 33/34] fix: two bool children of when_all ending on two
 threads could lose one of the results

---
 include/librf/src/when_v2.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/librf/src/when_v2.h b/include/librf/src/when_v2.h
index 3418220..fcb24fb 100644
--- a/include/librf/src/when_v2.h
+++ b/include/librf/src/when_v2.h
@@ -173,6 +173,13 @@ namespace librf
 
 				if constexpr(std::is_same_v<_Ty, ignore_type>)
 					co_await awaitor;
+				else if constexpr (std::is_same_v<_Ty, bool>)
+				{
+					//std::vector<bool>的多个元素共用一个字，写入需要互斥
+					bool result = co_await awaitor;
+					scoped_lock<spinlock> lock_(state->_lock);
+					(*values)[idx] = result;
+				}
 				else
 					(*values)[idx] = co_await awaitor;
 			}
-- 
2.43.0


From 1c2ad5a4397017e9a80845af4105bcace2d8311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:55 +0000
Subject: [PATCH 34/34] fix: a coroutine that ran a batch of its own scheduler
 invalidated the batch it was resumed from

---
 source/scheduler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/scheduler.cpp b/source/scheduler.cpp
index 908db32..757ad43 100644
--- a/source/scheduler.cpp
+++ b/source/scheduler.cpp
@@ -168,6 +168,8 @@ namespace librf
 	{
 		this->_timer->update();
 
+		//resume()里可能会再次调用run_one_batch()，故当前批次须保存在局部变量里
+		state_vector states;
 		{
 #if !RESUMEF_DISABLE_MULT_THREAD
 			scoped_lock<spinlock> __guard(_lock_running);
@@ -176,12 +178,14 @@ namespace librf
 				return false;
 
 			std::swap(_cached_states, _runing_states);
+			states.swap(_cached_states);
 		}
 
-		for (state_sptr& sptr : _cached_states)
+		for (state_sptr& sptr : states)
 			sptr->resume();
 
-		_cached_states.clear();
+		states.clear();
+		states.swap(_cached_states);
 		return true;
 	}
 
-- 
2.43.0

