From 45bbfa6671e702cd5df63d51ba78d5f4827a2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 01/60] fix: ThreadPool: make queueing to a new worker safe
 against a failing allocation

If growing the worker list throws, the new worker has already been started with
the task: the task may run although queueing it failed, and the worker is
destroyed with the pool mutex held, which deadlocks with its completion handler.
---
 stingraykit/thread/ThreadPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/thread/ThreadPool.cpp b/stingraykit/thread/ThreadPool.cpp
index 91ab8df..f660b6c 100644
--- a/stingraykit/thread/ThreadPool.cpp
+++ b/stingraykit/thread/ThreadPool.cpp
@@ -192,6 +192,7 @@ namespace stingray
 		if (_workers.size() + 1 >= _maxThreads)
 			return false;
 
+		_workers.reserve(_workers.size() + 1);
 		_workers.push_back(make_unique_ptr<WorkerWrapper>(StringBuilder() % _name % "_" % (_workers.size() + 1), _profileTimeout, _idleTimeout, _exceptionHandler, Bind(&ThreadPool::TaskCompletedHandler, this), task));
 		return true;
 	}
-- 
2.43.0


From dc293b80391a86e44c3f145122d1a916936db7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 02/60] fix: ExecutionDeferrer: do not run a function
 superseded while the timer is busy

Defer replaces the queued DoDefer call of the previous Defer. When the timer
thread was busy and the previously deferred function became due in between,
nothing released it any more and it was run although a newer Defer call had
superseded it before it was due.
---
 stingraykit/timer/Timer.cpp | 17 +++++++++++++----
 stingraykit/timer/Timer.h   |  7 +++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 84b2e3f..2c813e0 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -342,17 +342,26 @@ namespace stingray
 	void ExecutionDeferrer::Defer(const TaskType& task, TimeDuration timeout, optional<TimeDuration> interval)
 	{
 		MutexLock l(_doDeferConnectionMutex);
-		_doDeferConnection = _timer.SetTimeout(TimeDuration(), Bind(&ExecutionDeferrer::DoDefer, this, task, timeout, interval));
+		_doDeferConnection = _timer.SetTimeout(TimeDuration(), Bind(&ExecutionDeferrer::DoDefer, this, task, timeout, interval, ++_generation));
 	}
 
 
-	void ExecutionDeferrer::DoDefer(const TaskType& task, TimeDuration timeout, optional<TimeDuration> interval)
+	void ExecutionDeferrer::DoDefer(const TaskType& task, TimeDuration timeout, optional<TimeDuration> interval, u64 generation)
 	{
+		const TaskType executeTask = Bind(&ExecutionDeferrer::Execute, this, task, generation);
+
 		MutexLock l(_connectionMutex);
 		if (interval)
-			_connection = _timer.SetTimer(timeout, *interval, task);
+			_connection = _timer.SetTimer(timeout, *interval, executeTask);
 		else
-			_connection = _timer.SetTimeout(timeout, task);
+			_connection = _timer.SetTimeout(timeout, executeTask);
+	}
+
+
+	void ExecutionDeferrer::Execute(const TaskType& task, u64 generation) const
+	{
+		if (generation == _generation) // otherwise superseded by newer Defer call, which is not handled by timer yet
+			task();
 	}
 
 }
diff --git a/stingraykit/timer/Timer.h b/stingraykit/timer/Timer.h
index b708515..54644cd 100644
--- a/stingraykit/timer/Timer.h
+++ b/stingraykit/timer/Timer.h
@@ -85,6 +85,8 @@ namespace stingray
 		Mutex			_mutex;
 		bool			_cancellationActive;
 
+		atomic<u64>		_generation;
+
 		Mutex			_connectionMutex;
 		Token			_connection;
 
@@ -93,7 +95,7 @@ namespace stingray
 
 	public:
 		explicit ExecutionDeferrer(Timer& timer, TimeDuration timeout = TimeDuration())
-			: _timer(timer), _timeout(timeout), _cancellationActive(false)
+			: _timer(timer), _timeout(timeout), _cancellationActive(false), _generation(0)
 		{ }
 
 		void Cancel();
@@ -108,7 +110,8 @@ namespace stingray
 		void DeferWithTimeout(const TaskType& task, TimeDuration timeout)			{ Defer(task, timeout); }
 
 	private:
-		void DoDefer(const TaskType& task, TimeDuration timeout, optional<TimeDuration> interval);
+		void DoDefer(const TaskType& task, TimeDuration timeout, optional<TimeDuration> interval, u64 generation);
+		void Execute(const TaskType& task, u64 generation) const;
 	};
 	STINGRAYKIT_DECLARE_PTR(ExecutionDeferrer);
 
-- 
2.43.0


From e25d59ea93b426df2622bceca2d6c694e39e16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 03/60] fix: CancellationToken: do not end Sleep on a spurious
 wakeup

A spurious wakeup of the condition variable ended the sleep early and was
reported as a cancellation.
---
 stingraykit/thread/CancellationToken.cpp | 17 ++++++++++++++---
 stingraykit/thread/CancellationToken.h   |  1 +
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/stingraykit/thread/CancellationToken.cpp b/stingraykit/thread/CancellationToken.cpp
index 48a8681..9f39ce7 100644
--- a/stingraykit/thread/CancellationToken.cpp
+++ b/stingraykit/thread/CancellationToken.cpp
@@ -8,6 +8,7 @@
 #include <stingraykit/thread/CancellationToken.h>
 
 #include <stingraykit/function/bind.h>
+#include <stingraykit/time/RemainingTime.h>
 #include <stingraykit/FunctionToken.h>
 
 namespace stingray
@@ -16,6 +17,7 @@ namespace stingray
 	CancellationToken::Impl::Impl()
 		:	_cancelled(false),
 			_cancelDone(false),
+			_cancelCount(0),
 			_cancelHandler(null)
 	{ }
 
@@ -35,10 +37,18 @@ namespace stingray
 		if (_cancelled)
 			return false;
 
-		if (duration)
-			return !_cond.TimedWait(_mutex, *duration);
+		const u64 cancelCount = _cancelCount;
+		if (!duration)
+		{
+			while (cancelCount == _cancelCount)
+				_cond.Wait(_mutex);
+			return false;
+		}
 
-		_cond.Wait(_mutex);
+		const RemainingTime remaining(*duration);
+		while (cancelCount == _cancelCount)
+			if (!_cond.TimedWait(_mutex, remaining.Remaining()))
+				return true;
 		return false;
 	}
 
@@ -57,6 +67,7 @@ namespace stingray
 
 			cancelHandler = _cancelHandler;
 			_cancelled = true;
+			++_cancelCount;
 		}
 
 		if (cancelHandler)
diff --git a/stingraykit/thread/CancellationToken.h b/stingraykit/thread/CancellationToken.h
index bc0af38..b26a2e8 100644
--- a/stingraykit/thread/CancellationToken.h
+++ b/stingraykit/thread/CancellationToken.h
@@ -30,6 +30,7 @@ namespace stingray
 			ConditionVariable				_cond;
 			atomic<bool>					_cancelled;
 			atomic<bool>					_cancelDone;
+			u64								_cancelCount;
 			mutable ICancellationHandler*	_cancelHandler;
 
 		public:
-- 
2.43.0


From ae649f5364d3be13eba0db73fc461bb14b184f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:37 +0000
Subject: [PATCH 04/60] fix: JoiningCancellationToken: register only if no
 joined token is cancelled, sleep full time

If one of the joined tokens was already cancelled when a wait registered its
handler, the wait blocked until the other token was cancelled. Sleep ended early
on a spurious wakeup, and reported full sleep if a joined token timed out.
---
 .../thread/JoiningCancellationToken.cpp       | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..0b88b5f 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -26,13 +26,20 @@ namespace stingray
 	{
 		MutexLock l(_mutex);
 
-		if (duration)
-			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut;
-		else
+		if (!duration)
 		{
-			_cond.Wait(_mutex, *this);
+			while (_cond.Wait(_mutex, *this) == ConditionWaitResult::Broadcasted) { } // spurious wakeup
 			return false;
 		}
+
+		const RemainingTime remaining(*duration);
+		const TimedCancellationToken token(*this, *duration);
+
+		ConditionWaitResult result = ConditionWaitResult::Broadcasted;
+		while (result == ConditionWaitResult::Broadcasted) // spurious wakeup
+			result = _cond.Wait(_mutex, token);
+
+		return (result == ConditionWaitResult::TimedOut || !IsCancelled()) && remaining.Expired();
 	}
 
 
@@ -48,9 +55,16 @@ namespace stingray
 	bool JoiningCancellationToken::TryRegisterCancellationHandler(ICancellationHandler& handler) const
 	{
 		_firstRegistered = _firstRegistrator.TryRegisterCancellationHandler(handler);
+		if (!_firstRegistered)
+			return false;
+
 		_secondRegistered = _secondRegistrator.TryRegisterCancellationHandler(handler);
+		if (_secondRegistered)
+			return true;
 
-		return _firstRegistered || _secondRegistered;
+		// if unregistration fails then first token is being cancelled and handler will be called
+		_firstRegistered = !_firstRegistrator.TryUnregisterCancellationHandler();
+		return _firstRegistered;
 	}
 
 
-- 
2.43.0


From 79fb14eb0e1e5d4e64bc2242c91869f739278c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:15 +0000
Subject: [PATCH 05/60] fix: Barrier: do not release a party on a spurious
 wakeup

---
 stingraykit/thread/Barrier.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/Barrier.h b/stingraykit/thread/Barrier.h
index 04d04da..ab8520a 100644
--- a/stingraykit/thread/Barrier.h
+++ b/stingraykit/thread/Barrier.h
@@ -46,7 +46,8 @@ namespace stingray
 				_cv.Broadcast();
 			}
 			else
-				_cv.Wait(_mutex);
+				while (!_releasing)
+					_cv.Wait(_mutex);
 			if (--_currentCount == 0)
 			{
 				_releasing = false;
-- 
2.43.0


From 7b9ef4bdb930206cc602d378d050061a151f2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 06/60] fix: promise::swap exchanges the future-retrieved flags
 too

---
 stingraykit/future.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..191ba54 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,7 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{ _futureImpl.swap(other._futureImpl); std::swap(_futureRetrieved, other._futureRetrieved); }
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +329,7 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{ _futureImpl.swap(other._futureImpl); std::swap(_futureRetrieved, other._futureRetrieved); }
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 96e978c8fc99d3db0679bcdba3fbc89971c055ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 07/60] fix: a destroyed Singleton is refused in optimized
 builds too, its state survives destruction

---
 stingraykit/Singleton.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/stingraykit/Singleton.h b/stingraykit/Singleton.h
index 6af6b03..4c23e3a 100644
--- a/stingraykit/Singleton.h
+++ b/stingraykit/Singleton.h
@@ -31,12 +31,21 @@ namespace stingray
 	private:
 		using InstancePtr = unique_ptr<T>;
 
+		// Has to stay accessible after destruction of the instance, so it must be trivially destructible
 		struct InstanceHolder
 		{
-			InstancePtr		Inst;
+			T*				Inst = null;
 			bool			Created = false;
+		};
 
-			~InstanceHolder() { Inst.reset(); }
+		struct InstanceDeleter
+		{
+			~InstanceDeleter()
+			{
+				InstanceHolder& holder = GetInstanceHolder();
+				CheckedDelete(holder.Inst);
+				holder.Inst = null;
+			}
 		};
 
 	private:
@@ -44,7 +53,7 @@ namespace stingray
 
 	public:
 		static bool IsAlive()
-		{ return GetInstanceHolder().Inst.is_initialized(); }
+		{ return GetInstanceHolder().Inst; }
 
 		static T& Instance()
 		{
@@ -72,10 +81,12 @@ namespace stingray
 			catch(const std::exception& ex)
 			{ Logger::Error() << "An exception in " << TypeInfo(typeid(T)) << " singleton constructor:\n" << ex; }
 
+			static InstanceDeleter deleter;
+
 			InstanceHolder& holder = GetInstanceHolder();
 
-			holder.Inst = std::move(ptr);
-			holder.Created = holder.Inst.is_initialized();
+			holder.Created = ptr.is_initialized();
+			holder.Inst = ptr.release();
 		}
 
 		static void AssertInstance()
-- 
2.43.0


From f48b7fc5c9f82518b2f15a65e6fc7027b63c703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 08/60] fix: per-thread data is not accessed after its release
 by destructors of other per-thread data

---
 stingraykit/thread/posix/ThreadLocal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/posix/ThreadLocal.h b/stingraykit/thread/posix/ThreadLocal.h
index c072a4b..7db8ced 100644
--- a/stingraykit/thread/posix/ThreadLocal.h
+++ b/stingraykit/thread/posix/ThreadLocal.h
@@ -74,7 +74,7 @@
 		} \
 	private: \
 		static void Dtor(void* val) \
-		{ ValueHolder* holder = static_cast<ValueHolder*>(val); stingray::CheckedDelete(holder); } \
+		{ s_value = NULL; ValueHolder* holder = static_cast<ValueHolder*>(val); stingray::CheckedDelete(holder); } \
 	};
 
 #	define STINGRAYKIT_DEFINE_THREAD_LOCAL(Type_, Name_) __thread Type_* Name_::s_value = NULL
-- 
2.43.0


From bb12c5a887ed473ab5d34b9533f227ad9ac3b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 09/60] fix: ActionTransaction: undo each succeeded action
 once, also if memory or an undo action fails

---
 stingraykit/ActionTransaction.cpp | 14 ++++++++++----
 stingraykit/ActionTransaction.h   |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index 8d2b484..ed20d32 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -20,7 +20,7 @@ namespace stingray
 
 	ActionTransaction::~ActionTransaction()
 	{
-		if (_active)
+		while (_active)
 			STINGRAYKIT_TRY("Couldn't rollback transaction!", Rollback());
 	}
 
@@ -29,9 +29,11 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
+		RollbackSequence rollback(1, rollbackFunc);
+
 		actionFunc();
 
-		_rollbackSequence.push_back(rollbackFunc);
+		_rollbackSequence.splice(_rollbackSequence.end(), rollback);
 	}
 
 
@@ -47,8 +49,12 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
-		for (RollbackSequence::reverse_iterator it = _rollbackSequence.rbegin(); it != _rollbackSequence.rend(); ++it)
-			(*it)();
+		while (!_rollbackSequence.empty())
+		{
+			const RollbackFunc rollbackFunc = _rollbackSequence.back();
+			_rollbackSequence.pop_back();
+			rollbackFunc();
+		}
 
 		_active = false;
 	}
diff --git a/stingraykit/ActionTransaction.h b/stingraykit/ActionTransaction.h
index 1e4732f..019c02a 100644
--- a/stingraykit/ActionTransaction.h
+++ b/stingraykit/ActionTransaction.h
@@ -9,7 +9,7 @@
 // WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
 
-#include <vector>
+#include <list>
 
 #include <stingraykit/function/function.h>
 
@@ -26,7 +26,7 @@ namespace stingray
 		typedef function<void ()> RollbackFunc;
 
 	private:
-		typedef std::vector<RollbackFunc> RollbackSequence;
+		typedef std::list<RollbackFunc> RollbackSequence;
 
 	private:
 		RollbackSequence	_rollbackSequence;
-- 
2.43.0


From 49900d21df353f16e5a2d314175c01bba3e27736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 10/60] fix: Holder: do not run a cleanup function which threw
 again

---
 stingraykit/Holder.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/stingraykit/Holder.h b/stingraykit/Holder.h
index 62a7571..1d47af3 100644
--- a/stingraykit/Holder.h
+++ b/stingraykit/Holder.h
@@ -57,9 +57,11 @@ namespace stingray
 		void Check() const { STINGRAYKIT_CHECK(_valid, LogicException("ScopedHolder is not valid!")); }
 		void Cleanup()
 		{
-			if (_valid)
-				_cleanupFunc(_handle);
+			if (!_valid)
+				return;
+
 			_valid = false;
+			_cleanupFunc(_handle);
 		}
 	};
 
@@ -84,12 +86,19 @@ namespace stingray
 		~ScopedHolder()			{ STINGRAYKIT_TRY_NO_MESSAGE(Cleanup()); }
 
 		bool Valid() const		{ return _valid; }
-		void Clear()			{ Cleanup(); _valid = false; }
+		void Clear()			{ Cleanup(); }
 		void Set()				{ Cleanup(); _valid = true; }
 
 	private:
 		void Check() const		{ STINGRAYKIT_CHECK(_valid, LogicException("ScopedHolder is not valid!")); }
-		void Cleanup() const	{ if (_valid) _cleanupFunc(); }
+		void Cleanup()
+		{
+			if (!_valid)
+				return;
+
+			_valid = false;
+			_cleanupFunc();
+		}
 	};
 
 
-- 
2.43.0


From 5a1afea3e22adecafbac9b9fba128de0b9dff678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 11/60] fix: hiding of duplicating logs: guard the filter
 against concurrent use

A filter is shared by every thread which logs through its logger, but its map
and counters were accessed with no synchronisation.
---
 stingraykit/log/LoggerStream.cpp | 41 +++++++++++++++++++-------------
 stingraykit/log/LoggerStream.h   |  5 ++++
 2 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/stingraykit/log/LoggerStream.cpp b/stingraykit/log/LoggerStream.cpp
index 1397347..70722d7 100644
--- a/stingraykit/log/LoggerStream.cpp
+++ b/stingraykit/log/LoggerStream.cpp
@@ -48,31 +48,38 @@ namespace stingray
 			return;
 		}
 
-		DuplicatingLogsFilter::StringCounter* stringCounter = _duplicatingLogsFilter->Get(_hideDuplicatingLogs->Key);
+		std::string previousMessage;
+		bool newMessage = true;
 
-		if (!stringCounter->Count)
 		{
-			DoLogImpl(message); // Displaying first message
-			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
-			return;
-		}
+			MutexLock l(_duplicatingLogsFilter->GetSyncRoot());
 
-		const bool newMessage = stringCounter->Str != message;
+			DuplicatingLogsFilter::StringCounter* stringCounter = _duplicatingLogsFilter->Get(_hideDuplicatingLogs->Key);
 
-		if (newMessage
-				|| stringCounter->Count >= _hideDuplicatingLogs->Count
-				|| (stringCounter->Elapsed && stringCounter->Elapsed->Elapsed() >= _hideDuplicatingLogs->Interval))
-		{
-			if (stringCounter->Count > 0u)
-				DoLogImpl(StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)");
+			if (stringCounter->Count)
+			{
+				newMessage = stringCounter->Str != message;
 
-			if (newMessage)
-				DoLogImpl(message); // Displaying first message
+				if (!newMessage
+						&& stringCounter->Count < _hideDuplicatingLogs->Count
+						&& (!stringCounter->Elapsed || stringCounter->Elapsed->Elapsed() < _hideDuplicatingLogs->Interval))
+				{
+					++*stringCounter->Count;
+					return;
+				}
+
+				if (stringCounter->Count > 0u)
+					previousMessage = StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)";
+			}
 
 			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
 		}
-		else
-			++*stringCounter->Count;
+
+		if (!previousMessage.empty())
+			DoLogImpl(previousMessage);
+
+		if (newMessage)
+			DoLogImpl(message); // Displaying first message
 	}
 
 
diff --git a/stingraykit/log/LoggerStream.h b/stingraykit/log/LoggerStream.h
index 7da3417..6fbbe8c 100644
--- a/stingraykit/log/LoggerStream.h
+++ b/stingraykit/log/LoggerStream.h
@@ -11,6 +11,7 @@
 #include <stingraykit/log/LogLevel.h>
 #include <stingraykit/log/NamedLoggerParams.h>
 #include <stingraykit/string/ToString.h>
+#include <stingraykit/thread/Thread.h>
 #include <stingraykit/time/ElapsedTime.h>
 
 #include <stingraykit/unique_ptr.h>
@@ -87,9 +88,13 @@ namespace stingray
 		using LastMessagesMap = std::map<KeyType, StringCounter>;
 
 	private:
+		Mutex											_mutex;
 		LastMessagesMap									_lastMessages;
 
 	public:
+		const Mutex& GetSyncRoot() const { return _mutex; }
+
+		/// @brief Shall be called with GetSyncRoot() locked, as well as any access to the result
 		StringCounter* Get(const KeyType& key) { return &_lastMessages[key]; }
 	};
 
-- 
2.43.0


From 465ff4ad53227fdeac4c8d2f4511031d37dd962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 12/60] fix: Logger: leave no sink or named logger registered
 when its token cannot be made

---
 stingraykit/log/Logger.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/stingraykit/log/Logger.cpp b/stingraykit/log/Logger.cpp
index e4e9451..5d8842b 100644
--- a/stingraykit/log/Logger.cpp
+++ b/stingraykit/log/Logger.cpp
@@ -263,7 +263,13 @@ namespace stingray
 			return null;
 
 		logger->AddSink(sink);
-		return MakeFunctionToken(Bind(&LoggerImpl::RemoveSink, logger, sink));
+		try
+		{ return MakeFunctionToken(Bind(&LoggerImpl::RemoveSink, logger, sink)); }
+		catch (const std::exception&)
+		{
+			logger->RemoveSink(sink);
+			throw;
+		}
 	}
 
 
@@ -289,8 +295,18 @@ namespace stingray
 		:	_params(name),
 			_logLevel(OptionalLogLevel::FromLogLevel(logLevel))
 	{
-		if (const LoggerImplPtr logger = LoggerSingleton::Instance())
-			_token = MakeFunctionToken(Bind(&NamedLoggerRegistry::Unregister, Bind(&LoggerImpl::GetRegistry, logger), logger->GetRegistry().Register(this)));
+		const LoggerImplPtr logger = LoggerSingleton::Instance();
+		if (!logger)
+			return;
+
+		const auto it = logger->GetRegistry().Register(this);
+		try
+		{ _token = MakeFunctionToken(Bind(&NamedLoggerRegistry::Unregister, Bind(&LoggerImpl::GetRegistry, logger), it)); }
+		catch (const std::exception&)
+		{
+			logger->GetRegistry().Unregister(it);
+			throw;
+		}
 	}
 
 
-- 
2.43.0


From b6bbfa0938cfe6cc2e8e2edb203ff85371a1b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 13/60] fix: BithreadPipe: do not leave data of a failed write
 visible to the reader

Allocation of the scope guard may fail after the data is published: the reader
then read memory of a writer which had been told that the write failed.
---
 stingraykit/io/BithreadPipe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BithreadPipe.h b/stingraykit/io/BithreadPipe.h
index 4abd6e2..53fac17 100644
--- a/stingraykit/io/BithreadPipe.h
+++ b/stingraykit/io/BithreadPipe.h
@@ -54,11 +54,11 @@ namespace stingray
 		{
 			MutexLock l(_guard);
 
+			ScopeExitInvoker sei(Bind(make_assigner(_data), null));
+
 			_data = data;
 			_full.Broadcast();
 
-			ScopeExitInvoker sei(Bind(make_assigner(_data), null));
-
 			while (_data)
 				switch (_empty.Wait(_guard, token))
 				{
-- 
2.43.0


From ee8f2e2c24af372b74f37801c5692f22ee58132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 14/60] fix: SynchronizedPipe: do not lose the pipe when a
 write cannot allocate its guards

---
 stingraykit/io/SynchronizedPipe.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/SynchronizedPipe.h b/stingraykit/io/SynchronizedPipe.h
index ee7ac7e..6deb01d 100644
--- a/stingraykit/io/SynchronizedPipe.h
+++ b/stingraykit/io/SynchronizedPipe.h
@@ -41,11 +41,12 @@ namespace stingray
 				}
 
 			IPipePtr pipe;
-			_pipe.swap(pipe);
 
 			const ScopeExitInvoker sei1(Bind(&ConditionVariable::Broadcast, wrap_ref(_cv)));
 			const ScopeExitInvoker sei2(Bind(&IPipePtr::swap, wrap_ref(_pipe), wrap_ref(pipe)));
 
+			_pipe.swap(pipe);
+
 			MutexUnlock ul(l);
 			CheckedWriteAll(*pipe, data, token);
 			return data.size();
-- 
2.43.0


From a0d83221bea97a8b08e8227ac82c5978b67a6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 15/60] fix: PipeDataSource: keep the data which the consumer
 has not processed

Data read from the pipe was dropped when the consumer refused it or threw, and
processing a part of it threw NotImplementedException and dropped the rest.
---
 stingraykit/io/PipeDataSource.cpp | 18 ++++++++++--------
 stingraykit/io/PipeDataSource.h   |  3 +++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/PipeDataSource.cpp b/stingraykit/io/PipeDataSource.cpp
index e2a5f00..372e4c6 100644
--- a/stingraykit/io/PipeDataSource.cpp
+++ b/stingraykit/io/PipeDataSource.cpp
@@ -11,7 +11,7 @@ namespace stingray
 {
 
 	PipeDataSource::PipeDataSource(const IPipePtr& pipe, size_t bufferSize)
-		: _pipe(pipe), _buffer(bufferSize)
+		: _pipe(pipe), _buffer(bufferSize), _bufferOffset(), _bufferSize()
 	{ }
 
 
@@ -19,15 +19,17 @@ namespace stingray
 	{
 		try
 		{
-			const size_t read = _pipe->Read(_buffer, token);
-			if (read == 0)
-				return;
+			if (_bufferOffset == _bufferSize)
+			{
+				const size_t read = _pipe->Read(_buffer, token);
+				if (read == 0)
+					return;
 
-			const size_t processed = consumer.Process(ConstByteData(_buffer, 0, read), token);
-			if (processed == 0)
-				return;
+				_bufferOffset = 0;
+				_bufferSize = read;
+			}
 
-			STINGRAYKIT_CHECK(processed == read, NotImplementedException());
+			_bufferOffset += consumer.Process(ConstByteData(_buffer, _bufferOffset, _bufferSize - _bufferOffset), token);
 		}
 		catch (const PipeClosedException&)
 		{
diff --git a/stingraykit/io/PipeDataSource.h b/stingraykit/io/PipeDataSource.h
index cd9295a..fa5be48 100644
--- a/stingraykit/io/PipeDataSource.h
+++ b/stingraykit/io/PipeDataSource.h
@@ -23,6 +23,9 @@ namespace stingray
 
 		ByteArray	_buffer;
 
+		size_t		_bufferOffset;
+		size_t		_bufferSize;
+
 	public:
 		explicit PipeDataSource(const IPipePtr& pipe, size_t bufferSize = DefaultBufferSize);
 
-- 
2.43.0


From 5425c788f87e3bd1e7196a7b4e39f2ac26e0cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 16/60] fix: CircularBufferBase: do not leave data locked when
 Pop cannot allocate

Every later Pop threw 'Previous data was not freed'.
---
 stingraykit/io/CircularBufferBase.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..94e62c1 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -163,17 +163,16 @@ namespace stingray
 				s_logger.Warning() << "ro: " << _readOffset << ", wo: " << _writeOffset << ", ls: " << _lockedDataSize;
 			}
 
-			if (_dataIsContiguous)
-				_lockedDataSize = std::min(size, _writeOffset - _readOffset);
-			else
-				_lockedDataSize = std::min(size, GetStorageSize() - _readOffset);
+			const size_t lockedDataSize = std::min(size, _dataIsContiguous ? _writeOffset - _readOffset : GetStorageSize() - _readOffset);
+			const CircularDataReserverPtr result = make_shared_ptr<CircularDataReserver>(ReadStorage(_readOffset, lockedDataSize), Bind(&CircularBufferBase::ReleaseData, this, _1));
+			_lockedDataSize = lockedDataSize;
 
 			if (_loggingEnabled)
 			{
 				s_logger.Warning() << "ro: " << _readOffset << ", wo: " << _writeOffset << ", ls: " << _lockedDataSize;
 				s_logger.Warning() << "Pop finished";
 			}
-			return make_shared_ptr<CircularDataReserver>(ReadStorage(_readOffset, _lockedDataSize), Bind(&CircularBufferBase::ReleaseData, this, _1));
+			return result;
 		}
 
 		void Push(const ConstByteData& data)
-- 
2.43.0


From fe573b14ea0aff61969613a84ee6a5257883177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 17/60] fix: CircularBufferBase: releasing of an empty reserver
 unlocked data of another one

---
 stingraykit/io/CircularBufferBase.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index 94e62c1..4aa592f 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -106,7 +106,8 @@ namespace stingray
 				DoPop(size - tailSize);
 			}
 
-			_lockedDataSize = 0;
+			if (size)
+				_lockedDataSize = 0;
 
 			if (_loggingEnabled)
 			{
-- 
2.43.0


From 6d135f2309cc12d6debf616ed9aea013568480bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 18/60] fix: CircularBufferBase: Clear() of wrapped data made
 the buffer look full

---
 stingraykit/io/CircularBufferBase.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index 4aa592f..a1f3256 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -211,7 +211,10 @@ namespace stingray
 			}
 
 			if (_readOffset + _lockedDataSize < GetStorageSize())
+			{
 				_writeOffset = _readOffset + _lockedDataSize;
+				_dataIsContiguous = true;
+			}
 			else
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
 
-- 
2.43.0


From 194c9f71426873b7c4e450cca55f3f2a3375c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 19/60] fix: CircularBufferBase: lock in GetSize(),
 GetFreeSize() and GetAllData()

Being called during Push() or Pop() in another thread they returned sizes larger
than the storage.
---
 stingraykit/io/CircularBufferBase.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index a1f3256..78f13cd 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -125,6 +125,7 @@ namespace stingray
 
 		shared_ptr<std::vector<u8> > GetAllData() const
 		{
+			MutexLock l(_mutex);
 			shared_ptr<std::vector<u8> > result = make_shared_ptr<std::vector<u8> >();
 			result->reserve(GetSize());
 
@@ -148,10 +149,16 @@ namespace stingray
 		}
 
 		size_t GetSize() const
-		{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset); }
+		{
+			MutexLock l(_mutex);
+			return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset + _writeOffset);
+		}
 
 		size_t GetFreeSize() const
-		{ return _dataIsContiguous ? (GetStorageSize() - _writeOffset + _readOffset) : (_readOffset - _writeOffset); }
+		{
+			MutexLock l(_mutex);
+			return _dataIsContiguous ? (GetStorageSize() - _writeOffset + _readOffset) : (_readOffset - _writeOffset);
+		}
 
 		CircularDataReserverPtr Pop(size_t size = std::numeric_limits<size_t>::max())
 		{
-- 
2.43.0


From 2009dc7f93124e58e23a9654dbb8d22aef33081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 20/60] fix: MemoryCircularBuffer: pushing of no data threw in
 debug builds

---
 stingraykit/io/MemoryCircularBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/MemoryCircularBuffer.h b/stingraykit/io/MemoryCircularBuffer.h
index eda65f7..4668a37 100644
--- a/stingraykit/io/MemoryCircularBuffer.h
+++ b/stingraykit/io/MemoryCircularBuffer.h
@@ -33,7 +33,8 @@ namespace stingray
 		virtual void WriteToStorage(size_t offset, ConstByteData::iterator begin, ConstByteData::iterator end)
 		{
 			//std::copy(&(*begin), &(*begin) + std::distance(begin, end), _container.begin() + offset);
-			::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
+			if (begin != end)
+				::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
 		}
 
 		virtual ConstByteData ReadStorage(size_t offset, size_t size) const
-- 
2.43.0


From a52b9f62d74c497eb27def5475ea91acc7b16ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:47 +0000
Subject: [PATCH 21/60] fix: BufferedDataMediator: neither drop nor repeat data
 when reading is interrupted

Data not consumed yet was dropped when the token was cancelled (and the end of
data was reported still), and was given again when the consumer threw.
---
 stingraykit/io/BufferedDataMediator.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BufferedDataMediator.h b/stingraykit/io/BufferedDataMediator.h
index 9e76361..f1ca8ae 100644
--- a/stingraykit/io/BufferedDataMediator.h
+++ b/stingraykit/io/BufferedDataMediator.h
@@ -17,11 +17,13 @@ namespace stingray
 	{
 	private:
 		ByteArray			_buffer;
+		size_t				_offset;
 		bool				_eod;
 
 	public:
 		BufferedDataMediator()
-			:	_eod()
+			:	_offset(),
+				_eod()
 		{ }
 
 		size_t Process(ConstByteData data, const ICancellationToken&) override
@@ -35,7 +37,12 @@ namespace stingray
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
 		{
-			ConsumeAll(consumer, _buffer, token);
+			while (token && _offset < _buffer.size())
+				_offset += consumer.Process(ConstByteData(_buffer, _offset), token);
+
+			if (_offset < _buffer.size())
+				return;
+
 			if (_eod)
 				consumer.EndOfData(token);
 
@@ -46,6 +53,7 @@ namespace stingray
 		void Reset()
 		{
 			_buffer.clear();
+			_offset = 0;
 			_eod = false;
 		}
 	};
-- 
2.43.0


From 2f11732c6e87b52b117503e17129d8e45a79c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:55 +0000
Subject: [PATCH 22/60] fix: PacketBuffer: an empty buffer accepts every packet
 which fits

---
 stingraykit/io/PacketBuffer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..24ab6c6 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -82,6 +82,13 @@ namespace stingray
 			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
 			MutexLock l2(_bufferMutex);
 
+			if (_packetQueue.empty())
+			{
+				// otherwise a packet which is bigger than both parts of free space would never fit
+				_buffer.Clear();
+				_paddingSize = 0;
+			}
+
 			BithreadCircularBuffer::Writer w = _buffer.Write();
 			size_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;
 			if (_buffer.GetFreeSize() < padding_size + data.size())
-- 
2.43.0


From 4f9f86f03f6277fae17b0645994f506c4de03416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 23/60] fix: PacketBuffer: Clear() or another Read() during
 Read() corrupted the buffer

---
 stingraykit/io/PacketBuffer.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index 24ab6c6..bae6773 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -32,6 +32,22 @@ namespace stingray
 			{ }
 		};
 
+		class ReadLock
+		{
+		private:
+			PacketBuffer&	_parent;
+
+		public:
+			explicit ReadLock(PacketBuffer& parent) : _parent(parent)
+			{
+				STINGRAYKIT_CHECK(!_parent._activeRead, InvalidOperationException("Simultaneous Read()!"));
+				_parent._activeRead = true;
+			}
+
+			~ReadLock()
+			{ _parent._activeRead = false; }
+		};
+
 	private:
 		static NamedLogger			s_logger;
 		const bool					_discardOnOverflow;
@@ -45,11 +61,12 @@ namespace stingray
 		ConditionVariable			_bufferEmpty;
 		ConditionVariable			_bufferFull;
 		bool						_eod;
+		bool						_activeRead;
 
 	public:
 		PacketBuffer(bool discardOnOverflow, size_t size) :
 			_discardOnOverflow(discardOnOverflow), _buffer(size),
-			_paddingSize(0), _eod(false)
+			_paddingSize(0), _eod(false), _activeRead(false)
 		{ }
 
 		size_t GetDataSize()			{ MutexLock l(_bufferMutex); return _buffer.GetDataSize(); }
@@ -59,6 +76,8 @@ namespace stingray
 		void Clear()
 		{
 			MutexLock l(_bufferMutex);
+			STINGRAYKIT_CHECK(!_activeRead, InvalidOperationException("Clear() during Read()!"));
+
 			while (true)
 			{
 				BithreadCircularBuffer::Reader r = _buffer.Read();
@@ -148,6 +167,8 @@ namespace stingray
 				return;
 			}
 
+			ReadLock rl(*this);
+
 			BithreadCircularBuffer::Reader r = _buffer.Read();
 			if (r.size() == _paddingSize && r.IsBufferEnd())
 			{
-- 
2.43.0


From fb43d2e3c45841defa9b51dfce48755eb2d74480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 24/60] fix: PacketBuffer: wake up a writer when padding is
 released

---
 stingraykit/io/PacketBuffer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index bae6773..e2b8e50 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -175,6 +175,7 @@ namespace stingray
 				r.Pop(_paddingSize);
 				_paddingSize = 0;
 				r = _buffer.Read();
+				_bufferFull.Broadcast();
 			}
 
 			PacketInfo p = _packetQueue.front();
-- 
2.43.0


From 989fab451702636a45e8b623943c813304f453ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:54 +0000
Subject: [PATCH 25/60] fix: PacketBuffer: a writer waiting behind another one
 could not be cancelled

---
 stingraykit/io/PacketBuffer.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index e2b8e50..e3a3dd6 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -55,18 +55,18 @@ namespace stingray
 		std::deque<PacketInfo>		_packetQueue;
 
 		Mutex						_bufferMutex;
-		Mutex						_writeMutex;
 		size_t						_paddingSize;
 
 		ConditionVariable			_bufferEmpty;
 		ConditionVariable			_bufferFull;
 		bool						_eod;
 		bool						_activeRead;
+		bool						_activeWrite;
 
 	public:
 		PacketBuffer(bool discardOnOverflow, size_t size) :
 			_discardOnOverflow(discardOnOverflow), _buffer(size),
-			_paddingSize(0), _eod(false), _activeRead(false)
+			_paddingSize(0), _eod(false), _activeRead(false), _activeWrite(false)
 		{ }
 
 		size_t GetDataSize()			{ MutexLock l(_bufferMutex); return _buffer.GetDataSize(); }
@@ -98,8 +98,12 @@ namespace stingray
 			ConstByteData data(packet.GetData());
 			STINGRAYKIT_CHECK(data.size() <= GetStorageSize(), StringBuilder() % "Packet is too big! Buffer size: " % GetStorageSize() % " packet size:" % data.size());
 
-			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
-			MutexLock l2(_bufferMutex);
+			MutexLock l(_bufferMutex);
+			while (_activeWrite) // write can be called simultaneously from several threads
+			{
+				if (_bufferFull.Wait(_bufferMutex, token) != ConditionWaitResult::Broadcasted)
+					return false;
+			}
 
 			if (_packetQueue.empty())
 			{
@@ -132,9 +136,13 @@ namespace stingray
 			}
 
 			{
-				MutexUnlock ul2(l2);
+				_activeWrite = true;
+				MutexUnlock ul(l);
 				::memcpy(w.data(), data.data(), data.size());
 			}
+			_activeWrite = false;
+			_bufferFull.Broadcast();
+
 			PacketInfo p(data.size(), packet.GetMetadata());
 			_packetQueue.push_back(p);
 
-- 
2.43.0


From 94640eac35f5012f5e842471e990cf2345f3ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 26/60] fix: PagedBuffer: Read() ran past the end after reading
 of data which is being pushed

---
 stingraykit/io/PagedBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..8c18efb 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -74,8 +74,8 @@ namespace stingray
 		MutexLock l(_mutex);
 		ReadLock rl(*this);
 
-		const u64 unreadSize = _pageSize * _pages.size() - _currentOffset - _tailSize;
-		if (unreadSize < _chunkSize)
+		const u64 endOffset = _pageSize * _pages.size() - _tailSize;
+		if (endOffset < _currentOffset + _chunkSize) // the data being pushed may have been read already
 		{
 			_dataPushed.Wait(_mutex, token);
 			return;
-- 
2.43.0


From 12bfd7a0a69757feba51ee0e9eebb6540c801ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 27/60] fix: PagedBuffer: data consumed by a cancelled Read()
 was read again

---
 stingraykit/io/PagedBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 8c18efb..982f4e1 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -97,7 +97,8 @@ namespace stingray
 			MutexUnlock ul(l);
 
 			processed = page->Read(offset, consumer, token);
-			STINGRAYKIT_CHECK_CANCELLATION(token);
+			if (processed == 0)
+				STINGRAYKIT_CHECK_CANCELLATION(token);
 		}
 
 		Log(LogLevel::Trace) << "Read: processed size: " << processed << " (" << (processed / _chunkSize) << " chunk(s))";
-- 
2.43.0


From d5312250b3e92300f1ac3abad0c3b4e99f58b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 28/60] fix: PagedBuffer: wake up a reader when Seek() gives it
 data

---
 stingraykit/io/PagedBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 982f4e1..351e4e5 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -240,6 +240,7 @@ namespace stingray
 		Log(LogLevel::Debug) << "Seek: offset: " << offset << ", start offset: " << _startOffset << " --> current offset: " << newCurrentOffset;
 
 		_currentOffset = newCurrentOffset;
+		_dataPushed.Broadcast();
 	}
 
 
-- 
2.43.0


From 847dcda706faf951ed162361e80c58e4e9b8936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 29/60] fix: PagedBuffer: Pop() of pages during Read() made the
 data be read again

---
 stingraykit/io/PagedBuffer.cpp | 8 ++++++--
 stingraykit/io/PagedBuffer.h   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 351e4e5..5466012 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -90,7 +90,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		const u64 absoluteOffset = _droppedSize + _currentOffset;
 		size_t processed = 0;
 
 		{
@@ -110,7 +110,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (_droppedSize + _currentOffset == absoluteOffset) // neither Seek() nor Pop() has moved it
 			_currentOffset += processed;
 	}
 
@@ -204,12 +204,14 @@ namespace stingray
 		auto newBeginIt = _pages.begin();
 		u64 newStartOffset = _startOffset + size;
 		u64 newCurrentOffset = std::max(newStartOffset, _currentOffset);
+		u64 newDroppedSize = _droppedSize;
 
 		while (newStartOffset >= _pageSize)
 		{
 			++newBeginIt;
 			newStartOffset -= _pageSize;
 			newCurrentOffset -= _pageSize;
+			newDroppedSize += _pageSize;
 		}
 
 		{
@@ -224,6 +226,7 @@ namespace stingray
 		_pages.erase(_pages.begin(), newBeginIt);
 		_startOffset = newStartOffset;
 		_currentOffset = newCurrentOffset;
+		_droppedSize = newDroppedSize;
 	}
 
 
@@ -251,6 +254,7 @@ namespace stingray
 			_startOffset(0),
 			_currentOffset(0),
 			_tailSize(0),
+			_droppedSize(0),
 			_activeRead(false),
 			_activeWrite(false)
 	{
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..b142525 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -46,6 +46,7 @@ namespace stingray
 		u64							_startOffset;
 		u64							_currentOffset;
 		u64							_tailSize;
+		u64							_droppedSize;
 
 		Mutex						_mutex;
 		bool						_activeRead;
-- 
2.43.0


From 31c9cc095687d3fdf89357dead85fef65f949e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 30/60] fix: AsyncByteStream: do not reserve space for a write
 which cannot be queued

---
 stingraykit/io/AsyncByteStream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/AsyncByteStream.cpp b/stingraykit/io/AsyncByteStream.cpp
index fedea86..f622b0d 100644
--- a/stingraykit/io/AsyncByteStream.cpp
+++ b/stingraykit/io/AsyncByteStream.cpp
@@ -218,9 +218,10 @@ namespace stingray
 			size_t writeSize = std::min(writer.size(), std::max(_bufferPreallocationSize, data.size()));
 
 			ByteData writeData(writer.GetData(), 0, writeSize);
-			writer.Push(writeSize);
 
 			_streamOpQueue.push_back(StreamOpData::Write(_position, writeData));
+			writer.Push(writeSize);
+
 			targetOpDataIt = _streamOpQueue.rbegin();
 			_stats.NotAppended++;
 		}
-- 
2.43.0


From 14d6c63567e30d340e23a0952c63bacffbd0cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 31/60] fix: AsyncByteStream: keep the buffer if reconfiguring
 cannot allocate

---
 stingraykit/io/AsyncByteStream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/stingraykit/io/AsyncByteStream.cpp b/stingraykit/io/AsyncByteStream.cpp
index f622b0d..6a340db 100644
--- a/stingraykit/io/AsyncByteStream.cpp
+++ b/stingraykit/io/AsyncByteStream.cpp
@@ -325,12 +325,18 @@ namespace stingray
 		STINGRAYKIT_CHECK(!_wasException, StringBuilder() % _name % ": was exception while previous operation");
 
 		MutexLock l(_streamOpQueueMutex);
-		if (!_buffers.empty())
+		_buffers.push_front(make_shared_ptr<BithreadCircularBuffer>(config.BufferSize()));
+		if (_buffers.size() > 1)
 		{
-			_streamOpQueue.push_back(StreamOpData::PopBuffer());
+			try
+			{ _streamOpQueue.push_back(StreamOpData::PopBuffer()); }
+			catch (const std::exception&)
+			{
+				_buffers.pop_front();
+				throw;
+			}
 			_condVar.Broadcast();
 		}
-		_buffers.push_front(make_shared_ptr<BithreadCircularBuffer>(config.BufferSize()));
 		_config = config;
 		_bufferPreallocationSize = _config.PageSize() * _config.MergeablePagesHint();
 		_bufferLowWater = std::max(_config.BufferSize() / 10, std::min(_config.BufferSize() / 2, _bufferPreallocationSize * 2));
-- 
2.43.0


From 7bc68749969545551ef656da56ab79f86aaa3145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 32/60] fix: AsyncByteStream: destructor lost accepted data if
 the stream honours cancellation

---
 stingraykit/io/AsyncByteStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/AsyncByteStream.cpp b/stingraykit/io/AsyncByteStream.cpp
index 6a340db..0d47b57 100644
--- a/stingraykit/io/AsyncByteStream.cpp
+++ b/stingraykit/io/AsyncByteStream.cpp
@@ -380,7 +380,7 @@ namespace stingray
 							MutexUnlock ul(l);
 							STINGRAYKIT_PROFILER(1000, "Write");
 							_stream->Seek((s64)opData.GetWriteStartOffset(), SeekMode::Begin);
-							written = (size_t)_stream->Write(writeData, token);
+							written = (size_t)_stream->Write(writeData, DummyCancellationToken()); // accepted data is written by destructor too
 						}
 
 						if (written == writeData.size())
-- 
2.43.0


From 9eca4aafe91fca5aa3a4fcad012c89897d092ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 33/60] fix: BufferedStream: keep the position after short
 reads and failed operations

---
 stingraykit/io/BufferedStream.h | 46 +++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..4b39c5d 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -30,11 +30,13 @@ namespace stingray
 		u64            _bufferOffset;
 		size_t         _inBufferOffset;
 
+		bool           _streamMoved; // stream position does not correspond to buffer because of write or failed operation
+
 		size_t         _alignment;
 
 	public:
 		BufferedStream(const IByteStreamPtr& stream, size_t bufferSize = DefaultBufferSize, size_t alignment = DefaultAlignment):
-			_stream(stream), _buffer(bufferSize), _bufferSize(0), _bufferOffset(0), _inBufferOffset(0), _alignment(alignment)
+			_stream(stream), _buffer(bufferSize), _bufferSize(0), _bufferOffset(0), _inBufferOffset(0), _streamMoved(false), _alignment(alignment)
 		{ STINGRAYKIT_CHECK(bufferSize % alignment == 0, ArgumentException("alignment", alignment)); }
 
 		virtual u64 Read(ByteData data, const ICancellationToken& token)
@@ -44,14 +46,8 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
-				{
-					if (_bufferSize)
-						SeekStream(Tell());
-					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
-						break;
-				}
+				if (_inBufferOffset >= _bufferSize && !FillBuffer(token))
+					break;
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
 				::memcpy(dst, _buffer.data() + _inBufferOffset, toCopy);
 			}
@@ -60,10 +56,18 @@ namespace stingray
 
 		virtual u64 Write(ConstByteData data, const ICancellationToken& token)
 		{
-			if (_inBufferOffset != _bufferSize || _bufferSize)
+			const bool seekRequired = _streamMoved || _inBufferOffset != _bufferSize || _bufferSize;
+			_streamMoved = true;
+			if (seekRequired)
 				_stream->Seek(Tell());
+
+			const u64 position = Tell();
+			_bufferSize = 0;
 			u64 total = _stream->Write(data, token);
-			SeekStream(Tell() + total);
+			_bufferOffset = position + total;
+			_inBufferOffset = 0;
+
+			SeekStream(Tell());
 			return total;
 		}
 
@@ -79,6 +83,7 @@ namespace stingray
 					SeekStream(static_cast<u64>(offset));
 				return;
 			case SeekMode::End:
+				_streamMoved = true;
 				_stream->Seek(offset, mode);
 				offset = _stream->Tell();
 				if (SeekInBuffer(static_cast<u64>(offset)))
@@ -92,6 +97,23 @@ namespace stingray
 		{ return _bufferOffset + _inBufferOffset; }
 
 	private:
+		bool FillBuffer(const ICancellationToken& token)
+		{
+			if (_bufferSize || _streamMoved)
+				SeekStream(Tell());
+
+			while (_bufferSize <= _inBufferOffset) // stream may read less than required to reach the position
+			{
+				_streamMoved = true;
+				const size_t size = _stream->Read(ByteData(_buffer, _bufferSize), token);
+				_streamMoved = false;
+				if (size == 0)
+					return false;
+				_bufferSize += size;
+			}
+			return true;
+		}
+
 		bool SeekInBuffer(u64 offset)
 		{
 			if (_bufferOffset <= offset && offset - _bufferOffset < static_cast<u64>(_bufferSize))
@@ -105,7 +127,9 @@ namespace stingray
 		void SeekStream(u64 offset)
 		{
 			const u64 alignedOffset(AlignDown<u64>(offset, _alignment));
+			_streamMoved = true;
 			_stream->Seek(alignedOffset);
+			_streamMoved = false;
 			_bufferOffset = alignedOffset;
 			_inBufferOffset = static_cast<size_t>(offset - alignedOffset);
 			_bufferSize = 0;
-- 
2.43.0


From fe74904aae54198b08096bc0a29730f31198c31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 34/60] fix: DataTaker, DataSkipper: do not forget progress if
 reading fails

---
 stingraykit/io/DataUtils.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/stingraykit/io/DataUtils.h b/stingraykit/io/DataUtils.h
index 2441ea7..0dd9d48 100644
--- a/stingraykit/io/DataUtils.h
+++ b/stingraykit/io/DataUtils.h
@@ -69,8 +69,16 @@ namespace stingray
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
 		{
 			TakingConsumer taker(consumer, _leftToTake, _discardRest);
-			while (token && taker.GetLeftToTake())
-				_source->Read(taker, token);
+			try
+			{
+				while (token && taker.GetLeftToTake())
+					_source->Read(taker, token);
+			}
+			catch (...)
+			{
+				_leftToTake = taker.GetLeftToTake();
+				throw;
+			}
 			_leftToTake = taker.GetLeftToTake();
 		}
 	};
@@ -128,7 +136,13 @@ namespace stingray
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
 		{
 			SkippingConsumer skipper(consumer, _leftToSkip, _processRest);
-			_source->Read(skipper, token);
+			try
+			{ _source->Read(skipper, token); }
+			catch (...)
+			{
+				_leftToSkip = skipper.GetLeftToSkip();
+				throw;
+			}
 			_leftToSkip = skipper.GetLeftToSkip();
 		}
 	};
-- 
2.43.0


From 8468af901dddd39a9d41b6c6baff578ab76e116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 35/60] fix: SkippingConsumer: do not lose data if consumer is
 cancelled or fails

---
 stingraykit/io/DataUtils.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stingraykit/io/DataUtils.h b/stingraykit/io/DataUtils.h
index 0dd9d48..62fcda1 100644
--- a/stingraykit/io/DataUtils.h
+++ b/stingraykit/io/DataUtils.h
@@ -101,12 +101,13 @@ namespace stingray
 		size_t Process(ConstByteData data, const ICancellationToken& token) override
 		{
 			const size_t skipped = std::min(_leftToSkip, (u64)data.size());
-			_leftToSkip -= skipped;
 
+			size_t processed = skipped;
 			if (data.size() > skipped && _processRest)
-				ConsumeAll(_consumer, ConstByteData(data, skipped), token);
+				processed += _consumer.Process(ConstByteData(data, skipped), token);
 
-			return _processRest ? data.size() : skipped;
+			_leftToSkip -= skipped;
+			return processed;
 		}
 
 		void EndOfData(const ICancellationToken& token) override
-- 
2.43.0


From 4ccaea4f8e646e2284ce70b9114db8a635819617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 36/60] fix: DataDepacketer: do not lose the rest of a packet
 if cancelled or failed half way

---
 stingraykit/io/DataPacketer.h | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/stingraykit/io/DataPacketer.h b/stingraykit/io/DataPacketer.h
index 08ebf21..91a93a7 100644
--- a/stingraykit/io/DataPacketer.h
+++ b/stingraykit/io/DataPacketer.h
@@ -18,24 +18,36 @@ namespace stingray
 	private:
 		IDataConsumerPtr	_lifeAssurance;
 		IDataConsumer&		_consumer;
+		size_t				_processed;
 
 	public:
 		explicit ConsumerDepacketer(const IDataConsumerPtr& consumer)
 			:	_lifeAssurance(consumer),
-				_consumer(*_lifeAssurance)
+				_consumer(*_lifeAssurance),
+				_processed(0)
 		{ }
 
-		explicit ConsumerDepacketer(IDataConsumer& consumer)
+		explicit ConsumerDepacketer(IDataConsumer& consumer, size_t processed = 0)
 			:	_lifeAssurance(null),
-				_consumer(consumer)
+				_consumer(consumer),
+				_processed(processed)
 		{ }
 
 		bool Process(const Packet<EmptyType>& packet, const ICancellationToken& token) override
 		{
-			ConsumeAll(_consumer, packet.GetData(), token);
+			while (token && _processed < packet.GetSize())
+				_processed += _consumer.Process(ConstByteData(packet.GetData(), _processed), token);
+
+			if (_processed < packet.GetSize())
+				return false; // rest will be processed when packet is passed again
+
+			_processed -= packet.GetSize();
 			return true;
 		}
 
+		size_t GetProcessed() const
+		{ return _processed; }
+
 		void EndOfData() override
 		{ _consumer.EndOfData(DummyCancellationToken()); }
 	};
@@ -114,20 +126,33 @@ namespace stingray
 	private:
 		PacketSourcePtr		_lifeAssurance;
 		PacketSource&		_source;
+		size_t				_processed; // processed part of packet which source will pass again
 
 	public:
 		explicit DataDepacketer(const PacketSourcePtr& source)
 			:	_lifeAssurance(source),
-				_source(*_lifeAssurance)
+				_source(*_lifeAssurance),
+				_processed(0)
 		{ }
 
 		explicit DataDepacketer(PacketSource& source)
 			:	_lifeAssurance(null),
-				_source(source)
+				_source(source),
+				_processed(0)
 		{ }
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
-		{ ConsumerDepacketer depacketer(consumer); _source.Read(depacketer, token); }
+		{
+			ConsumerDepacketer depacketer(consumer, _processed);
+			try
+			{ _source.Read(depacketer, token); }
+			catch (...)
+			{
+				_processed = depacketer.GetProcessed();
+				throw;
+			}
+			_processed = depacketer.GetProcessed();
+		}
 	};
 	STINGRAYKIT_DECLARE_PTR(DataDepacketer);
 
-- 
2.43.0


From 6b314e2373565cd49d4db73cf862c1539a99fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 37/60] fix: DataAligner: do not lose or repeat data if
 consumer is cancelled or fails

---
 stingraykit/io/DataAligner.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/stingraykit/io/DataAligner.h b/stingraykit/io/DataAligner.h
index 14d21dd..93f4a2a 100644
--- a/stingraykit/io/DataAligner.h
+++ b/stingraykit/io/DataAligner.h
@@ -40,29 +40,32 @@ namespace stingray
 		{
 			if (_buffer.empty())
 			{
-				size_t processed = ConsumeAll(consumer, ConstByteData(data, 0, AlignDown(data.size(), _alignment)), token);
+				const size_t aligned = AlignDown(data.size(), _alignment);
+				const size_t processed = aligned != 0 ? consumer.Process(ConstByteData(data, 0, aligned), token) : 0;
 
-				const size_t remainder = data.size() - processed;
-				if (_useBuffer && token && remainder)
-				{
-					_buffer.append(ConstByteData(data, processed, remainder));
-					processed += remainder;
-				}
+				const size_t remainder = data.size() - aligned;
+				if (!_useBuffer || !token || !remainder || processed != aligned)
+					return processed;
 
-				return processed;
+				_buffer.append(ConstByteData(data, aligned, remainder));
+				return data.size();
 			}
 
-			const size_t offset = std::min(_alignment - _buffer.size(), data.size());
+			const size_t buffered = _buffer.size();
+			const size_t offset = std::min(_alignment - buffered, data.size());
 
-			_buffer.append(ConstByteData(data, 0, offset));
-
-			if (_buffer.size() == _alignment)
+			if (buffered + offset < _alignment)
 			{
-				ConsumeAll(consumer, _buffer, token);
-				_buffer.clear();
+				_buffer.append(ConstByteData(data, 0, offset));
+				return offset;
 			}
 
-			return offset;
+			ByteArray block(_buffer.data(), buffered);
+			block.append(ConstByteData(data, 0, offset));
+
+			const size_t processed = consumer.Process(block, token);
+			_buffer = processed < buffered ? ByteArray(_buffer.data() + processed, buffered - processed) : ByteArray();
+			return processed < buffered ? 0 : processed - buffered;
 		}
 	};
 	STINGRAYKIT_DECLARE_PTR(DataAligner);
-- 
2.43.0


From 5fc1d7d6fa40f76e8f344f834bc7b8a48302036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 38/60] fix: ByteStreamDataSource: do not lose read data if
 consumer is cancelled or fails

---
 stingraykit/io/ByteStreamDataSource.h | 30 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/ByteStreamDataSource.h b/stingraykit/io/ByteStreamDataSource.h
index 2881342..f127946 100644
--- a/stingraykit/io/ByteStreamDataSource.h
+++ b/stingraykit/io/ByteStreamDataSource.h
@@ -22,27 +22,41 @@ namespace stingray
 		IByteStreamPtr		_stream;
 
 		ByteArray			_buffer;
+		size_t				_dataOffset;
+		size_t				_dataSize;
 
 	public:
 		explicit ByteStreamDataSource(const IByteStreamPtr& stream, size_t bufferSize = DefaultBufferSize)
-			: _stream(STINGRAYKIT_REQUIRE_NOT_NULL(stream)), _buffer(bufferSize)
+			: _stream(STINGRAYKIT_REQUIRE_NOT_NULL(stream)), _buffer(bufferSize), _dataOffset(0), _dataSize(0)
 		{ STINGRAYKIT_CHECK(bufferSize != 0, ArgumentException("bufferSize")); }
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
 		{
-			const size_t read = _stream->Read(_buffer, token);
+			if (_dataOffset == _dataSize)
+			{
+				_dataOffset = _dataSize = 0;
+				_dataSize = _stream->Read(_buffer, token);
 
-			if (read != 0)
-				ConsumeAll(consumer, ConstByteData(_buffer, 0, read), token);
-			else if (token)
-				consumer.EndOfData(token);
+				if (_dataSize == 0)
+				{
+					if (token)
+						consumer.EndOfData(token);
+					return;
+				}
+			}
+
+			while (token && _dataOffset < _dataSize)
+				_dataOffset += consumer.Process(ConstByteData(_buffer, _dataOffset, _dataSize - _dataOffset), token);
 		}
 
 		void Seek(s64 offset, SeekMode mode = SeekMode::Begin)
-		{ _stream->Seek(offset, mode); }
+		{
+			_stream->Seek(mode == SeekMode::Current ? offset - (s64)(_dataSize - _dataOffset) : offset, mode);
+			_dataOffset = _dataSize = 0;
+		}
 
 		u64 Tell() const
-		{ return _stream->Tell(); }
+		{ return _stream->Tell() - (_dataSize - _dataOffset); }
 	};
 	STINGRAYKIT_DECLARE_PTR(ByteStreamDataSource);
 
-- 
2.43.0


From 6e335d7d80a8e5ae3155f2434bb3e2ad7b0a8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:44 +0000
Subject: [PATCH 39/60] fix: ChunkedMemoryByteStream: allow writing across
 chunks

---
 stingraykit/io/ChunkedMemoryByteStream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..7f463e2 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -78,6 +78,7 @@ namespace stingray
 					curcount = std::min(data.size() - passed, _chunk->size() - _chunkOffset);
 					std::copy(data.data() + passed, data.data() + passed + curcount, _chunk->begin() + _chunkOffset);
 					_chunkOffset += curcount;
+					NormalizePosition();
 				}
 			}
 			return passed;
-- 
2.43.0


From 0fba8e5a7be47776121223d3b4e0c6260cf2ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 40/60] fix: ByteStreamDataSource, DataDepacketer: do not spin
 if consumer takes nothing

---
 stingraykit/io/ByteStreamDataSource.h | 7 ++++++-
 stingraykit/io/DataPacketer.h         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/ByteStreamDataSource.h b/stingraykit/io/ByteStreamDataSource.h
index f127946..8d2b8b9 100644
--- a/stingraykit/io/ByteStreamDataSource.h
+++ b/stingraykit/io/ByteStreamDataSource.h
@@ -46,7 +46,12 @@ namespace stingray
 			}
 
 			while (token && _dataOffset < _dataSize)
-				_dataOffset += consumer.Process(ConstByteData(_buffer, _dataOffset, _dataSize - _dataOffset), token);
+			{
+				const size_t processed = consumer.Process(ConstByteData(_buffer, _dataOffset, _dataSize - _dataOffset), token);
+				if (!processed)
+					return; // rest will be passed by next Read
+				_dataOffset += processed;
+			}
 		}
 
 		void Seek(s64 offset, SeekMode mode = SeekMode::Begin)
diff --git a/stingraykit/io/DataPacketer.h b/stingraykit/io/DataPacketer.h
index 91a93a7..57dc0e7 100644
--- a/stingraykit/io/DataPacketer.h
+++ b/stingraykit/io/DataPacketer.h
@@ -36,7 +36,12 @@ namespace stingray
 		bool Process(const Packet<EmptyType>& packet, const ICancellationToken& token) override
 		{
 			while (token && _processed < packet.GetSize())
-				_processed += _consumer.Process(ConstByteData(packet.GetData(), _processed), token);
+			{
+				const size_t processed = _consumer.Process(ConstByteData(packet.GetData(), _processed), token);
+				if (!processed)
+					break;
+				_processed += processed;
+			}
 
 			if (_processed < packet.GetSize())
 				return false; // rest will be processed when packet is passed again
-- 
2.43.0


From ff6759df3876c4b768295e418d19026d5ffc6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 41/60] fix: TransactionalList: Transaction::Apply inserts an
 added item

The announced differences of a list could not be replayed: 'Added' overwrote the item at its index instead of inserting.
---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From 4325f8e057c6583ea84c1a4780ff661b6e6f2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 42/60] fix: TransactionalDictionary/Set: a commit that fails
 changes nothing

Commit applied its changes one by one: an exception (no memory) half way left a part of them visible and unannounced, and a repeated commit failed with 'Broken invariant'.
---
 .../collection/TransactionalDictionary.h      | 53 +++++++++++++++++--
 stingraykit/collection/TransactionalSet.h     | 42 +++++++++++++--
 2 files changed, 85 insertions(+), 10 deletions(-)

diff --git a/stingraykit/collection/TransactionalDictionary.h b/stingraykit/collection/TransactionalDictionary.h
index 06a2106..21f9fe2 100644
--- a/stingraykit/collection/TransactionalDictionary.h
+++ b/stingraykit/collection/TransactionalDictionary.h
@@ -484,20 +484,22 @@ namespace stingray
 					return;
 
 				const DiffTypePtr diff = Diff();
+				const MapTypePtr added = make_shared_ptr<MapType>();
+				const MapTypePtr removed = make_shared_ptr<MapType>();
 
 				{
 					MutexLock l(*_impl->Guard);
 					Utils::CopyOnWrite(_impl->Items, _impl->ItemsHolder, _impl->Items.get());
 
-					for (const MapValueType& pair : *_removed)
-						_impl->Items->erase(pair.first);
-					for (const MapValueType& pair : *_added)
-						STINGRAYKIT_CHECK(_impl->Items->emplace(pair.first, pair.second).second, LogicException("Broken invariant: failed to add to items"));
+					UpdateItems();
 
 					_impl->OnChanged(diff);
 				}
 
-				Revert();
+				_added = added;
+				_addedHolder.reset();
+				_removed = removed;
+				_removedHolder.reset();
 			}
 
 			void Revert() override
@@ -510,6 +512,47 @@ namespace stingray
 			}
 
 		private:
+			void UpdateItems()
+			{
+				using Iterator = typename MapType::iterator;
+
+				MapType& items = *_impl->Items;
+				std::vector<Iterator> addedItems;
+				std::vector<std::pair<Iterator, ValueType>> updatedItems;
+
+				addedItems.reserve(_added->size());
+				updatedItems.reserve(_added->size());
+
+				try
+				{
+					for (const MapValueType& pair : *_added)
+					{
+						const auto result = items.emplace(pair.first, pair.second);
+						if (result.second)
+						{
+							addedItems.push_back(result.first);
+							continue;
+						}
+
+						STINGRAYKIT_CHECK(_removed->count(pair.first), LogicException("Broken invariant: failed to add to items"));
+						updatedItems.emplace_back(result.first, pair.second);
+					}
+				}
+				catch (...)
+				{
+					for (const Iterator& it : addedItems)
+						items.erase(it);
+
+					throw;
+				}
+
+				for (std::pair<Iterator, ValueType>& pair : updatedItems)
+					std::swap(pair.first->second, pair.second);
+				for (const MapValueType& pair : *_removed)
+					if (!_added->count(pair.first))
+						items.erase(pair.first);
+			}
+
 			HolderPtr GetAddedHolder() const
 			{ return Utils::GetItemsHolder(_added, _addedHolder); }
 
diff --git a/stingraykit/collection/TransactionalSet.h b/stingraykit/collection/TransactionalSet.h
index 3509fdf..ed94419 100644
--- a/stingraykit/collection/TransactionalSet.h
+++ b/stingraykit/collection/TransactionalSet.h
@@ -379,20 +379,22 @@ namespace stingray
 					return;
 
 				const DiffTypePtr diff = Diff();
+				const SetTypePtr added = make_shared_ptr<SetType>();
+				const SetTypePtr removed = make_shared_ptr<SetType>();
 
 				{
 					MutexLock l(*_impl->Guard);
 					Utils::CopyOnWrite(_impl->Items, _impl->ItemsHolder, _impl->Items.get());
 
-					for (const ValueType& value : *_removed)
-						_impl->Items->erase(value);
-					for (const ValueType& value : *_added)
-						STINGRAYKIT_CHECK(_impl->Items->insert(value).second, LogicException("Broken invariant: failed to add to items"));
+					UpdateItems();
 
 					_impl->OnChanged(diff);
 				}
 
-				Revert();
+				_added = added;
+				_addedHolder.reset();
+				_removed = removed;
+				_removedHolder.reset();
 			}
 
 			void Revert() override
@@ -405,6 +407,36 @@ namespace stingray
 			}
 
 		private:
+			void UpdateItems()
+			{
+				using Iterator = typename SetType::iterator;
+
+				SetType& items = *_impl->Items;
+				std::vector<Iterator> addedItems;
+
+				addedItems.reserve(_added->size());
+
+				try
+				{
+					for (const ValueType& value : *_added)
+					{
+						const auto result = items.insert(value);
+						STINGRAYKIT_CHECK(result.second, LogicException("Broken invariant: failed to add to items"));
+						addedItems.push_back(result.first);
+					}
+				}
+				catch (...)
+				{
+					for (const Iterator& it : addedItems)
+						items.erase(it);
+
+					throw;
+				}
+
+				for (const ValueType& value : *_removed)
+					items.erase(value);
+			}
+
 			HolderPtr GetAddedHolder() const
 			{ return Utils::GetItemsHolder(_added, _addedHolder); }
 
-- 
2.43.0


From 65c63c0b3b59f410c8494044aa707e1300918e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:04 +0000
Subject: [PATCH 43/60] fix: SortedMultiSet, MultiMapDictionary: ReverseFind of
 the greatest key

ReverseFind compared upper_bound() with end() instead of begin(): it found nothing for the greatest key, and dereferenced rend() for a key smaller than all.
---
 stingraykit/collection/MultiMapDictionary.h | 2 +-
 stingraykit/collection/SortedMultiSet.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..36553d3 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -122,7 +122,7 @@ namespace stingray
 			using cri = typename MapType::const_reverse_iterator;
 
 			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			if (it == _map->begin() || KeyCompareType()(cri(it)->first, key))
 				return MakeEmptyEnumerator();
 
 			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..c70306e 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -112,7 +112,7 @@ namespace stingray
 			using cri = typename SetType::const_reverse_iterator;
 
 			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			if (it == _items->begin() || CompareType_()(*cri(it), value))
 				return MakeEmptyEnumerator();
 
 			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
-- 
2.43.0


From a077625c392161ff9d989cc8c9c7444e5134bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:28 +0000
Subject: [PATCH 44/60] fix: BandwidthReporter: no division by zero when a
 report follows a delayed one at once

---
 stingraykit/BandwidthReporter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/BandwidthReporter.h b/stingraykit/BandwidthReporter.h
index be22bcb..ecff35e 100644
--- a/stingraykit/BandwidthReporter.h
+++ b/stingraykit/BandwidthReporter.h
@@ -44,7 +44,8 @@ namespace stingray
 		void Report()
 		{
 			MutexLock l(_mutex);
-			const u64 speedInKbytes = (_dataSinceLastReport * 1000 / _timeSinceLastReport.ElapsedMilliseconds()) / 1024;
+			const s64 elapsedMs = _timeSinceLastReport.ElapsedMilliseconds();
+			const u64 speedInKbytes = elapsedMs > 0 ? (_dataSinceLastReport * 1000 / elapsedMs) / 1024 : 0;
 			Logger::Info() << "Data: " << _dataSinceLastReport << " total: " << _dataTotal << " avg speed: " << speedInKbytes << " KB/s";
 
 			_dataSinceLastReport = 0;
-- 
2.43.0


From a4f1944a10c339d3c1a03b9bfd3037308cb7e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:13 +0000
Subject: [PATCH 45/60] fix: FactoryContext: a registration that runs out of
 memory leaves nothing behind

---
 stingraykit/factory/Factory.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/stingraykit/factory/Factory.cpp b/stingraykit/factory/Factory.cpp
index 1c759fc..d8e40d0 100644
--- a/stingraykit/factory/Factory.cpp
+++ b/stingraykit/factory/Factory.cpp
@@ -52,13 +52,21 @@ namespace stingray
 		MutexLock l(_guard);
 
 		STINGRAYKIT_CHECK(_objectCreators.find(name) == _objectCreators.end(), StringBuilder() % "Class '" % name % "' is already registered");
-		_objectCreators.emplace(name, std::move(creator));
+		const ObjectCreatorsRegistry::const_iterator creatorIt = _objectCreators.emplace(name, std::move(creator)).first;
 
-		const ClassNamesRegistry::const_iterator it = _classNames.find(info);
-		if (it == _classNames.end())
-			_classNames.emplace(info, name);
-		else
-			Logger::Warning() << "Ignore name " << name << " for class '" << info.GetClassName() << "', already have name " << it->second;
+		try
+		{
+			const ClassNamesRegistry::const_iterator it = _classNames.find(info);
+			if (it == _classNames.end())
+				_classNames.emplace(info, name);
+			else
+				Logger::Warning() << "Ignore name " << name << " for class '" << info.GetClassName() << "', already have name " << it->second;
+		}
+		catch (...)
+		{
+			_objectCreators.erase(creatorIt);
+			throw;
+		}
 	}
 
 
-- 
2.43.0


From cde8cf6bd5157e1bbd04ac2d7ef1815dd3979e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 46/60] fix: QueueCache: an item whose copy or allocation fails
 loses no queue entry

---
 stingraykit/collection/QueueCache.h | 31 +++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/stingraykit/collection/QueueCache.h b/stingraykit/collection/QueueCache.h
index 3ba8c7a..7cc9bf6 100644
--- a/stingraykit/collection/QueueCache.h
+++ b/stingraykit/collection/QueueCache.h
@@ -82,18 +82,29 @@ namespace stingray
 			const StampType newStamp = MakeStamp();
 
 			typename Dictionary::iterator dictionaryIter = _dictionary.find(key);
-			if (dictionaryIter != _dictionary.end())
-			{
-				StampedValue& stampedValue = dictionaryIter->second;
+			const typename Queue::iterator queueIter = _queue.emplace(newStamp, dictionaryIter).first;
 
-				_size -= _sizeMapper(stampedValue.Value);
-				_queue.erase(stampedValue.Stamp);
-				stampedValue = StampedValue(value, newStamp);
+			try
+			{
+				if (dictionaryIter != _dictionary.end())
+				{
+					StampedValue& stampedValue = dictionaryIter->second;
+					const size_t oldSize = _sizeMapper(stampedValue.Value);
+					const StampType oldStamp = stampedValue.Stamp;
+
+					stampedValue = StampedValue(value, newStamp);
+					_queue.erase(oldStamp);
+					_size -= oldSize;
+				}
+				else
+					queueIter->second = _dictionary.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(value, newStamp)).first;
+			}
+			catch (...)
+			{
+				_queue.erase(queueIter);
+				throw;
 			}
-			else
-				dictionaryIter = _dictionary.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(value, newStamp)).first;
 
-			_queue.emplace(newStamp, dictionaryIter);
 			_size += _sizeMapper(value);
 
 			EvictExpired();
@@ -149,8 +160,8 @@ namespace stingray
 
 			const StampType newStamp = MakeStamp();
 
-			_queue.erase(value.Stamp);
 			_queue.emplace(newStamp, iter);
+			_queue.erase(value.Stamp);
 			value.Stamp = newStamp;
 
 			out = value.Value;
-- 
2.43.0


From 4d825acc3fe8715fa165cd8232bb0346e5f90411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 47/60] fix: function: a functor whose construction throws is
 not destroyed

---
 stingraykit/function/function.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/function/function.h b/stingraykit/function/function.h
index 53e0472..4396768 100644
--- a/stingraykit/function/function.h
+++ b/stingraykit/function/function.h
@@ -51,7 +51,7 @@ namespace stingray
 			GetVTableFunc*	_getVTable;
 
 			IInvokableBase(GetVTableFunc* func) : _getVTable(func) { }
-			~IInvokableBase() { _getVTable().Dtor(this); }
+			~IInvokableBase() { if (_getVTable) _getVTable().Dtor(this); }
 		};
 
 
@@ -88,8 +88,8 @@ namespace stingray
 
 		public:
 			Invokable(FunctorType&& func)
-				: BaseType(&MyType::GetVTable), _func(std::forward<FunctorType>(func))
-			{ }
+				: BaseType(NULL), _func(std::forward<FunctorType>(func))
+			{ this->_getVTable = &MyType::GetVTable; } // after _func, the base destructor must not destroy a functor that failed to construct
 
 			static VTable GetVTable()
 			{ return VTable(&MyType::Dtor, reinterpret_cast<typename VTable::InvokePtr>(&MyType::Invoke), &MyType::GetName); }
-- 
2.43.0


From e8a0f5134c1aa005153dfc2bdb09769adea98419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 48/60] fix: any: assignment survives a failing copy and an
 assignment from its own content

---
 stingraykit/any.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..76ff10e 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,23 +287,26 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			any tmp(other);
 			Destroy();
-			Copy(other);
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		any& operator = (any&& other)
 		{
+			any tmp(std::move(other));
 			Destroy();
-			Move(std::move(other));
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		template < typename T >
 		typename EnableIf<!IsSame<any, typename Decay<T>::ValueT>::Value, any>::ValueT& operator = (T&& val)
 		{
+			any tmp(std::forward<T>(val));
 			Destroy();
-			Init<T>(std::forward<T>(val));
+			Move(std::move(tmp));
 			return *this;
 		}
 
-- 
2.43.0


From 403a713ac17d6fb8174304a5821f37e069a6046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 49/60] fix: variant: self-assignment, assignment from its own
 content, and exceptions other than std::exception

---
 stingraykit/variant.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..0d1876c 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,12 +309,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -322,8 +328,9 @@ namespace stingray
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			typename Decay<T>::ValueT tmp(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			AssignVal(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
@@ -445,12 +452,18 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(other);
 		}
 
 		void assign(variant&& other)
 		{
+			if (this == &other)
+				return;
+
 			base::Destruct();
 			Assign(std::move(other));
 		}
@@ -458,8 +471,9 @@ namespace stingray
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			typename Decay<T>::ValueT tmp(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			AssignVal(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
@@ -512,7 +526,7 @@ namespace stingray
 				this->_storage.template Ctor<T>(std::forward<Us>(args)...);
 				this->_type = IndexOfTypeListItem<TypeList, T>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
@@ -525,7 +539,7 @@ namespace stingray
 				this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));
 				this->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
-- 
2.43.0


From 73505d60d210e377c7380a7c229fbcfcf6e600aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 50/60] fix: inplace_vector: self-assignment

---
 stingraykit/collection/inplace_vector.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..3da7ed6 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,15 +111,21 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
-			clear();
-			Copy(other);
+			if (this != &other)
+			{
+				clear();
+				Copy(other);
+			}
 			return *this;
 		}
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
-			clear();
-			Move(std::move(other));
+			if (this != &other)
+			{
+				clear();
+				Move(std::move(other));
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 8834e1132bb57d3a77e85c3d28e184fbd244ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 51/60] fix: ordered_map, ordered_set: self-assignment

---
 stingraykit/collection/ordered_map.h | 7 +++++--
 stingraykit/collection/ordered_set.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..2869aec 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -201,8 +201,11 @@ namespace stingray
 
 		ordered_map& operator = (const ordered_map& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			if (this != &other)
+			{
+				clear();
+				insert(other.begin(), other.end());
+			}
 			return *this;
 		}
 
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..6c1d8f0 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -177,8 +177,11 @@ namespace stingray
 
 		ordered_set& operator = (const ordered_set& other)
 		{
-			clear();
-			insert(other.begin(), other.end());
+			if (this != &other)
+			{
+				clear();
+				insert(other.begin(), other.end());
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 81f43119c1201a31354b82fbbffb8a6e2224aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 52/60] fix: flat_map, flat_set: a failing copy assignment
 leaves the old content

---
 stingraykit/collection/flat_map.h | 10 +++++++++-
 stingraykit/collection/flat_set.h | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..a4cb3e2 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -16,7 +16,6 @@ namespace stingray
 	template < class Key, class T, class Compare = std::less<Key>, class Allocator = std::allocator<std::pair<Key, T>> >
 	class flat_map
 	{
-		STINGRAYKIT_DEFAULTCOPYABLE(flat_map);
 		STINGRAYKIT_DEFAULTMOVABLE(flat_map);
 
 	public:
@@ -84,6 +83,8 @@ namespace stingray
 			: _container(alloc), _cmp(comp)
 		{ }
 
+		flat_map(const flat_map& other) = default;
+
 		explicit flat_map(const Allocator& alloc)
 			: flat_map(Compare(), alloc)
 		{ }
@@ -114,6 +115,13 @@ namespace stingray
 			: flat_map(list, Compare(), alloc)
 		{ }
 
+		flat_map& operator = (const flat_map& other)
+		{
+			flat_map tmp(other);
+			swap(tmp);
+			return *this;
+		}
+
 		flat_map& operator = (std::initializer_list<value_type> list)
 		{
 			clear();
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..409e262 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -18,7 +18,6 @@ namespace stingray
 	template < class Key, class Compare = std::less<Key>, class Allocator = std::allocator<Key> >
 	class flat_set
 	{
-		STINGRAYKIT_DEFAULTCOPYABLE(flat_set);
 		STINGRAYKIT_DEFAULTMOVABLE(flat_set);
 
 	public:
@@ -55,6 +54,8 @@ namespace stingray
 			: _container(alloc), _cmp(comp)
 		{ }
 
+		flat_set(const flat_set& other) = default;
+
 		explicit flat_set(const Allocator& alloc)
 			: flat_set(Compare(), alloc)
 		{ }
@@ -85,6 +86,13 @@ namespace stingray
 			: flat_set(list, Compare(), alloc)
 		{ }
 
+		flat_set& operator = (const flat_set& other)
+		{
+			flat_set tmp(other);
+			swap(tmp);
+			return *this;
+		}
+
 		flat_set& operator = (std::initializer_list<value_type> list)
 		{
 			clear();
-- 
2.43.0


From f31d6318fc8dd628341b17fd6ea870bb87a33144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 53/60] fix: RefCounting*, RefCounter: the reference stays when
 its release fails

---
 stingraykit/collection/RefCounter.h       |  3 ++-
 stingraykit/collection/RefCountingMap.h   | 10 +++++++--
 stingraykit/collection/RefCountingSet.h   | 27 ++++++++++++++++++-----
 stingraykit/collection/RefCountingValue.h |  6 ++---
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/stingraykit/collection/RefCounter.h b/stingraykit/collection/RefCounter.h
index 5ab9b7f..0a3e637 100644
--- a/stingraykit/collection/RefCounter.h
+++ b/stingraykit/collection/RefCounter.h
@@ -39,9 +39,10 @@ namespace stingray
 			if (_refs == 0)
 				return false;
 
-			if (--_refs == 0)
+			if (_refs == 1)
 				doReleaseFunc();
 
+			--_refs;
 			return true;
 		}
 
diff --git a/stingraykit/collection/RefCountingMap.h b/stingraykit/collection/RefCountingMap.h
index bcc4676..2e4f337 100644
--- a/stingraykit/collection/RefCountingMap.h
+++ b/stingraykit/collection/RefCountingMap.h
@@ -127,8 +127,11 @@ namespace stingray
 			if (implIt == _impl.end())
 				return 0;
 
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return 1;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
@@ -139,8 +142,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.GetImpl();
-			if (--implIt->second.References > 0)
+			if (implIt->second.References > 1)
+			{
+				--implIt->second.References;
 				return;
+			}
 
 			doRemoveFunc(implIt->first, implIt->second.Value);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingSet.h b/stingraykit/collection/RefCountingSet.h
index 11e37a9..c2b7054 100644
--- a/stingraykit/collection/RefCountingSet.h
+++ b/stingraykit/collection/RefCountingSet.h
@@ -59,8 +59,17 @@ namespace stingray
 				return keys_iterator(it);
 			}
 
-			doAddFunc(key);
-			return keys_iterator(_impl.emplace(key, 1).first);
+			const typename Impl::iterator newIt = _impl.emplace(key, 1).first;
+
+			try
+			{ doAddFunc(key); }
+			catch (...)
+			{
+				_impl.erase(newIt);
+				throw;
+			}
+
+			return keys_iterator(newIt);
 		}
 
 		template < typename DoRemoveFunc >
@@ -70,11 +79,14 @@ namespace stingray
 			if (it == _impl.end())
 				return 0;
 
-			if (--it->second == 0)
+			if (it->second > 1)
 			{
-				doRemoveFunc(it->first);
-				_impl.erase(it);
+				--it->second;
+				return 1;
 			}
+
+			doRemoveFunc(it->first);
+			_impl.erase(it);
 			return 1;
 		}
 
@@ -82,8 +94,11 @@ namespace stingray
 		void erase(iterator it, const DoRemoveFunc& doRemoveFunc)
 		{
 			const typename Impl::iterator implIt = it.base();
-			if (--implIt->second > 0)
+			if (implIt->second > 1)
+			{
+				--implIt->second;
 				return;
+			}
 
 			doRemoveFunc(implIt->first);
 			_impl.erase(implIt);
diff --git a/stingraykit/collection/RefCountingValue.h b/stingraykit/collection/RefCountingValue.h
index ae9d349..9c427f0 100644
--- a/stingraykit/collection/RefCountingValue.h
+++ b/stingraykit/collection/RefCountingValue.h
@@ -48,12 +48,13 @@ namespace stingray
 			if (_refs == 0)
 				return false;
 
-			if (--_refs == 0)
+			if (_refs == 1)
 			{
 				doReleaseFunc(*_value);
 				_value.reset();
 			}
 
+			--_refs;
 			return true;
 		}
 
@@ -63,10 +64,9 @@ namespace stingray
 			if (_refs == 0)
 				return;
 
-			_refs = 0;
-
 			doReleaseFunc(*_value);
 			_value.reset();
+			_refs = 0;
 		}
 	};
 
-- 
2.43.0


From 226adfece0715db312a843bcdc9cef338a992e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:22 +0000
Subject: [PATCH 54/60] fix: bimap: an insertion that fails on its second side
 leaves the first side as it was

---
 stingraykit/collection/bimap.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/bimap.h b/stingraykit/collection/bimap.h
index 3c90550..614bb24 100644
--- a/stingraykit/collection/bimap.h
+++ b/stingraykit/collection/bimap.h
@@ -45,8 +45,16 @@ public: \
 \
 	void T##_insert(const T##_key_type &key, const T##_mapped_type &value) \
 	{ \
-		_##T.insert(T##_value_type(key, value)); \
-		_##O.insert(O##_value_type(value, key)); \
+		const size_t oldSize = _##T.size(); \
+		const T##_iterator i = _##T.insert(_##T.end(), T##_value_type(key, value)); \
+		try \
+		{ _##O.insert(O##_value_type(value, key)); } \
+		catch (...) \
+		{ \
+			if (_##T.size() != oldSize) \
+				_##T.erase(i); \
+			throw; \
+		} \
 	} \
 \
 	void T##_erase(const T##_iterator &i) \
-- 
2.43.0


From 12210e015014375150c941510f6735eebc9aa0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:10 +0000
Subject: [PATCH 55/60] fix: CancellationToken: unregistering a handler does
 not hang if the token is reset at once

---
 stingraykit/thread/CancellationToken.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/CancellationToken.cpp b/stingraykit/thread/CancellationToken.cpp
index 9f39ce7..9a229cd 100644
--- a/stingraykit/thread/CancellationToken.cpp
+++ b/stingraykit/thread/CancellationToken.cpp
@@ -120,7 +120,7 @@ namespace stingray
 		if (!_cancelled)
 			return true;
 
-		while (!_cancelDone)
+		while (_cancelled && !_cancelDone) // token may be reset after cancellation is done, but before this thread awakes
 			_cond.Wait(_mutex);
 		return false;
 	}
-- 
2.43.0


From 6980917f4cc73d6a8e1b78bf553de6dfa2fad3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 56/60] fix: Timer: a delay or interval close to
 TimeDuration::Max() does not make the task fire at once

---
 stingraykit/timer/Timer.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 2c813e0..af79445 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -16,6 +16,15 @@
 namespace stingray
 {
 
+	namespace
+	{
+
+		TimeDuration GetTriggerTime(TimeDuration currentTime, TimeDuration timeout)
+		{ return timeout < TimeDuration::Max() - currentTime ? currentTime + timeout : TimeDuration::Max(); }
+
+	}
+
+
 	class Timer::CallbackQueue
 	{
 		using Container = std::multimap<TimeDuration, CallbackInfoPtr>;
@@ -79,7 +88,7 @@ namespace stingray
 		}
 
 		bool IsPeriodic() const									{ return _period.is_initialized(); }
-		void Restart(TimeDuration currentTime)					{ _timeToTrigger = currentTime + *STINGRAYKIT_REQUIRE_INITIALIZED(_period); }
+		void Restart(TimeDuration currentTime)					{ _timeToTrigger = GetTriggerTime(currentTime, *STINGRAYKIT_REQUIRE_INITIALIZED(_period)); }
 		TimeDuration GetTimeToTrigger() const					{ return _timeToTrigger; }
 
 	private:
@@ -177,7 +186,7 @@ namespace stingray
 
 	Token Timer::SetTimeout(TimeDuration timeout, const TaskType& task)
 	{
-		const CallbackInfoPtr ci = make_shared_ptr<CallbackInfo>(task, _monotonic.Elapsed() + timeout, null, TaskLifeToken());
+		const CallbackInfoPtr ci = make_shared_ptr<CallbackInfo>(task, GetTriggerTime(_monotonic.Elapsed(), timeout), null, TaskLifeToken());
 		const Token token = MakeFunctionToken(Bind(&Timer::RemoveTask, _queue, ci));
 
 		{
@@ -196,7 +205,7 @@ namespace stingray
 
 	Token Timer::SetTimer(TimeDuration timeout, TimeDuration interval, const TaskType& task)
 	{
-		const CallbackInfoPtr ci = make_shared_ptr<CallbackInfo>(task, _monotonic.Elapsed() + timeout, interval, TaskLifeToken());
+		const CallbackInfoPtr ci = make_shared_ptr<CallbackInfo>(task, GetTriggerTime(_monotonic.Elapsed(), timeout), interval, TaskLifeToken());
 		const Token token = MakeFunctionToken(Bind(&Timer::RemoveTask, _queue, ci));
 
 		{
-- 
2.43.0


From 9a36500c3f6029f28c3757f30aa3ee2e33cec369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:26 +0000
Subject: [PATCH 57/60] fix: Thread::Sleep: a negative duration does not sleep
 forever

---
 stingraykit/thread/Thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/thread/Thread.h b/stingraykit/thread/Thread.h
index d3f6e09..2df5964 100644
--- a/stingraykit/thread/Thread.h
+++ b/stingraykit/thread/Thread.h
@@ -130,7 +130,7 @@ namespace stingray
 		static void Yield();
 		/** @deprecated */
 		static inline void Sleep(u32 milliseconds)		{ SleepMicroseconds(1000u * (u64)milliseconds); }
-		static inline void Sleep(TimeDuration duration)	{ SleepMicroseconds(duration.GetMicroseconds()); }
+		static inline void Sleep(TimeDuration duration)	{ SleepMicroseconds(duration > TimeDuration() ? duration.GetMicroseconds() : 0); }
 		static void SleepMicroseconds(u64 microseconds);
 
 		static ThreadId GetCurrentThreadId();
-- 
2.43.0


From 9084d5f8fe048f684b66e00c936ef4bbba0598c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:32 +0000
Subject: [PATCH 58/60] fix: ArithmeticCoder: flush pending underflow bits at
 the end of data

The end of the stream was written without the underflow bits still pending, and stopped
as soon as the remaining bits of both bounds were equal, so that the decoder could miss
the end and go on with garbage.
---
 stingraykit/compression/ArithmeticCoder.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/stingraykit/compression/ArithmeticCoder.h b/stingraykit/compression/ArithmeticCoder.h
index fa192f0..50deaac 100644
--- a/stingraykit/compression/ArithmeticCoder.h
+++ b/stingraykit/compression/ArithmeticCoder.h
@@ -57,12 +57,11 @@ namespace stingray
 		template <typename BitsConsumer_>
 		void EndOfData(const BitsConsumer_& consumer)
 		{
-			while (_low != _high)
-			{
-				consumer(FirstBit(_low));
-				_low = (_low << 1) & 0x7FFFFFFF;
-				_high = (_high << 1) & 0x7FFFFFFF;
-			}
+			const bool bit = SecondBit(_low);
+			consumer(bit);
+			for (u32 i = 0; i < _underflowBits + 1; ++i)
+				consumer(!bit);
+			_underflowBits = 0;
 		}
 
 	private:
-- 
2.43.0


From 387f9ab0f3263c61a49deef77a7d106d3f0abc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:32 +0000
Subject: [PATCH 59/60] fix: PpmCompressor: encode the end of data once, wrap
 the rounded write offset

When the consumer refused the last bytes the end was encoded again by the next Read, and
a stream whose last byte ended the buffer left the write offset beyond it, so that stale
bytes were passed on.
---
 stingraykit/compression/ppm/PpmCompressor.h | 33 ++++++++++++++-------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 3116f3c..cce1878 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -46,12 +46,7 @@ namespace stingray
 		{
 			_buffer[BitsToBytes(_writeOffset)] |= (bit << (7 - (_writeOffset & 7)));
 			++_writeOffset;
-
-			if (_writeOffset == BufferSizeBits)
-			{
-				_writeOffset = 0;
-				_dataIsContiguous = !_dataIsContiguous;
-			}
+			WrapWriteOffset();
 		}
 
 		template <typename DataConsumer_>
@@ -62,6 +57,7 @@ namespace stingray
 		bool EndOfData(const DataConsumer_& consumer)
 		{
 			_writeOffset = BytesToBits(BitsToBytes(_writeOffset + 7));
+			WrapWriteOffset();
 			while (GetDataSizeBits() != 0)
 				if (!DoConsume(consumer))
 					return false;
@@ -72,6 +68,15 @@ namespace stingray
 		static size_t BitsToBytes(size_t bits)  { return bits >> 3; }
 		static size_t BytesToBits(size_t bytes) { return bytes << 3; }
 
+		void WrapWriteOffset()
+		{
+			if (_writeOffset == BufferSizeBits)
+			{
+				_writeOffset = 0;
+				_dataIsContiguous = !_dataIsContiguous;
+			}
+		}
+
 		template <typename DataConsumer_>
 		bool DoConsume(const DataConsumer_& consumer)
 		{
@@ -107,9 +112,10 @@ namespace stingray
 		std::deque<typename Impl::Symbol> _context;
 		BitsToBytesBuffer<BufferSize>     _bitBuffer;
 		ArithmeticCoder                   _coder;
+		bool                              _endOfData;
 
 	public:
-		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source)
+		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -127,12 +133,17 @@ namespace stingray
 
 		void DoEndOfData(IDataConsumer& consumer, const ICancellationToken& token)
 		{
-			if (!ConsumeData(consumer, token))
-				return;
+			if (!_endOfData)
+			{
+				if (!ConsumeData(consumer, token))
+					return;
 
-			_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+				_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+
+				_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
+				_endOfData = true;
+			}
 
-			_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
 			if (!_bitBuffer.EndOfData(Bind(&IDataConsumer::Process, &consumer, _1, wrap_const_ref(token))))
 				return;
 			consumer.EndOfData(token);
-- 
2.43.0


From 4d09dc7bee3610949886480dac72248a9a0d5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:32 +0000
Subject: [PATCH 60/60] fix: PpmDecompressor: report truncated data

Without the encoded end the decompressor read past the data it had got and could produce
garbage forever.
---
 stingraykit/compression/ppm/PpmDecompressor.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmDecompressor.h b/stingraykit/compression/ppm/PpmDecompressor.h
index d4c1b68..f19648c 100644
--- a/stingraykit/compression/ppm/PpmDecompressor.h
+++ b/stingraykit/compression/ppm/PpmDecompressor.h
@@ -83,6 +83,7 @@ namespace stingray
 		static const size_t ModelsCount = GetTypeListLength<ModelConfigList_>::Value;
 		static const size_t BufferSize = 1024;
 		static const size_t MaxBitsPerSymbol = ModelsCount * 32; // actually, it is ModelsCount * log(MaxProbabilityScale) / log(2), but better be safe
+		static const size_t MaxLookaheadBits = 31; // decoder reads ahead of the symbol it decodes
 
 		typedef PpmImpl<PpmConfig_>                             Impl;
 		typedef typename Impl::template Model<ModelConfigList_> Model;
@@ -94,12 +95,13 @@ namespace stingray
 		BytesToBitsBuffer<BufferSize>     _bitBuffer;
 		optional<ArithmeticDecoder>       _decoder;
 		bool                              _endOfData;
+		size_t                            _missingBits;
 
 		// TODO: add proper output buffer
 		optional<u8>                      _outputBuffer;
 
 	public:
-		PpmDecompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false)
+		PpmDecompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false), _missingBits(0)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -169,6 +171,8 @@ namespace stingray
 			STINGRAYKIT_CHECK(!_endOfData, "Data after EOD!");
 			optional<typename Impl::Symbol> symbol = _model->Decode(_context, *_decoder, Bind(&PpmDecompressor::GetBit, this));
 
+			STINGRAYKIT_CHECK(_missingBits <= MaxLookaheadBits, InputOutputException("Compressed data is truncated!"));
+
 			_endOfData = !symbol;
 			if (!symbol)
 				return;
@@ -180,7 +184,14 @@ namespace stingray
 		}
 
 		bool GetBit()
-		{ return _bitBuffer.GetBit(); }
+		{
+			if (_bitBuffer.GetDataSizeBits() == 0)
+			{
+				++_missingBits;
+				return false;
+			}
+			return _bitBuffer.GetBit();
+		}
 	};
 
 }
-- 
2.43.0

