"""What the interpreter needs from the models, in one place."""
from .m_types import (exc_class, typename, type_has_attr, isinstance_, is_, eq,  # noqa
                      compare, bcls, has_real_attr, obj_types)
from .m_seq import (getitem, setitem, delitem, iterate, nonempty, fixed_items,  # noqa
                    mapping_items, dict_update, dict_set, dedupe, dict_entry, expand_dict)
from .m_ops import unary, binop, iop  # noqa
from .m_str import to_str, to_repr, format_value  # noqa
from .m_builtin import (builtin, call_bcls, obj_attr, term_method, func_attr, bcls_attr,  # noqa
                        inst_attr, inst_call, class_attr, super_attr, make_super, base_init,
                        cm_enter, cm_exit, await_, INST_ATTR, _objview)
from .m_ext import ext  # noqa
from .m_ext2 import call_ext, opaque_call, decorate, check_import  # noqa
