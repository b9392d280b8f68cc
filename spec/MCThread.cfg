SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Users = {1, 2}
  Rounds = 3
INVARIANTS OncePerStart OneInstance IdleIsGone FreshFlag
PROPERTIES AllEnd AllGet
CHECK_DEADLOCK FALSE
