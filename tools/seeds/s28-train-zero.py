PROPERTY = "C04"
CLIENT = True
NEEDS = "the train with the id 0 among those the ordering graph is asked for"
BREAKS = "train 0 is left out of the request; asked for alone, the graph of all trains is shown"
EDITS = {"web/client/src/util/SoroClient.ts": [("""        trainIdFilter.toString()
""", """        trainIdFilter.filter((id) => id).join(',')
""")]}
DEMO = r'''import { World } from './world.mjs';
const w = new World();
for (const ids of [[0], [3, 0], [5]]) {
  new w.m.SoroClient('http://server').infrastructure('A').timetable('A1').ordering(0, 10, ids).catch(() => {});
  await w.settle();
  const got = new URL('http://server' + w.pending.pop().path).searchParams.get('trainIds');
  if (got !== ids.join(',')) {
    console.log('asked for', got, 'instead of', ids.join(','));
    process.exit(1);
  }
}
process.exit(0);
'''
