"""Stand-in for eventlet 0.8 (greenlet is not installable here).

Only the API the code under test uses. Coroutines are tasks of the controlled
scheduler mc.sched, so every switch between them is the explorer's decision."""
