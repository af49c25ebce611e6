import commands
import cluster
import cosigner
import ensemble
import remote
import store
import wire
import session
import sharing
import single
import startup
import state

REGISTRY = {p: [cosigner.run] for p in ('C02', 'C03', 'C04', 'C09', 'C10', 'C21', 'C22')}
for p in ('C01', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08'):
    REGISTRY.setdefault(p, []).append(cluster.run)
for p in ('C14', 'C15', 'C21'):
    REGISTRY.setdefault(p, []).append(session.run)
for p in ('C17', 'C18'):
    REGISTRY.setdefault(p, []).append(commands.run)
REGISTRY['C04'].append(state.run)
REGISTRY['C21'].append(wire.run)
REGISTRY['C19'] = [single.run]
REGISTRY['C20'] = [startup.run]
REGISTRY['C16'] = [sharing.run]
REGISTRY['C23'] = [remote.run]
REGISTRY['C12'] = [store.run]
REGISTRY['C11'] = [ensemble.run]
REGISTRY['C13'] = [ensemble.run]
