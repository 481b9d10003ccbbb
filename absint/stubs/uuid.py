from __native__ import UUID, opaque_call


def uuid4():
    return opaque_call('uuid4', 'UUID')
