// From here on the std names mean the scheduled types.  Include the code under test after this.
#define thread vf_thread
#define jthread vf_jthread
#define this_thread vf_this_thread
#define mutex vf_mutex
#define timed_mutex vf_timed_mutex
#define recursive_mutex vf_recursive_mutex
#define recursive_timed_mutex vf_recursive_mutex
#define shared_timed_mutex vf_shared_mutex
#define shared_mutex vf_shared_mutex
#define condition_variable vf_condition_variable
#define condition_variable_any vf_condition_variable_any
#define atomic vf_atomic
#define atomic_flag vf_atomic_flag
#define atomic_bool vf_atomic_bool
#define atomic_int vf_atomic_int
#define atomic_uint vf_atomic_uint
#define atomic_long vf_atomic_long
#define atomic_size_t vf_atomic_size_t
#define atomic_uint32_t vf_atomic_uint32_t
#define atomic_uint64_t vf_atomic_uint64_t
#define atomic_int32_t vf_atomic_int32_t
#define atomic_int64_t vf_atomic_int64_t
#define atomic_thread_fence vf_atomic_thread_fence
#define counting_semaphore vf_counting_semaphore
#define binary_semaphore vf_binary_semaphore
#define latch vf_latch
#define atomic_char vf_atomic_char
#define atomic_uchar vf_atomic_uchar
#define atomic_short vf_atomic_short
#define atomic_ushort vf_atomic_ushort
#define atomic_ulong vf_atomic_ulong
#define atomic_llong vf_atomic_llong
#define atomic_ullong vf_atomic_ullong
#define atomic_int8_t vf_atomic_int8_t
#define atomic_uint8_t vf_atomic_uint8_t
#define atomic_int16_t vf_atomic_int16_t
#define atomic_uint16_t vf_atomic_uint16_t
#define atomic_ptrdiff_t vf_atomic_ptrdiff_t
#define atomic_intptr_t vf_atomic_intptr_t
#define atomic_uintptr_t vf_atomic_uintptr_t
#define barrier vf_barrier
#define once_flag vf_once_flag
#define call_once vf_call_once
#define future vf_future
#define shared_future vf_shared_future
#define promise vf_promise
#define packaged_task vf_packaged_task
#define async vf_async
#define launch vf_launch
#define stop_token vf_stop_token
#define stop_source vf_stop_source
#define stop_callback vf_stop_callback
