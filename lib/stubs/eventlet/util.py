"""The real module replaces socket.socket by a coroutine-switching one; here
mc.net has already replaced it by a fake whose calls are scheduling points."""

def wrap_socket_with_coroutine_socket(use_thread_pool=True):
    pass

def wrap_threading_local_with_coro_local():
    pass
