"""Path summaries of the front end: like emit.Emitter, with the helpers of the
front end inlined and the symbol table operations kept symbolic."""
import emit
from emit import Emitter, INLINE_DIRS

ABORTS = ('CTIabortOnError', 'CTIabortCompilation')


class Front(Emitter):
    dirs = INLINE_DIRS + ('cocogen/frontend',)
    whole = ('cocogen/frontend',)
    opaque = ('STlookup', 'STadd', 'id_to_info')
    nonnull = ('STadd',)

    def __init__(self, P):
        Emitter.__init__(self, P)
        self.lazy = True
