PROPERTY = "C02"
CLIENT = True
NEEDS = "a page loaded while a mode of the user's own is stored, then the mode of the operating system chosen, then the operating system's mode changes"
BREAKS = "the operating system's mode is followed only if it was chosen when the page was loaded"
EDITS = {"web/client/src/stores/settings-store.ts": [("""    initThemeListener({ commit, state }) {
""", """    initThemeListener({ commit, state }) {
      if (state.darkLightModePreference !== DarkLightModes.OS) {
        // the user has chosen a mode, there is nothing to be followed
        return;
      }

""")]}
DEMO = r'''import { World } from './world.mjs';
const w = new World();
w.storage.setItem('darkLightModePreference', 'dark');
w.load();
await w.store.dispatch('settings/loadSettings');
await w.settle();
await w.store.dispatch('settings/setDarkLightModePreference', 'os');
await w.settle();
for (const dark of [true, false]) {
  w.osDark = dark;
  for (const mq of w.media) for (const h of mq.l.slice()) h({ matches: mq.matches, media: mq.media });
  await w.settle();
  const t = w.store.state.settings.theme;
  if (t !== (dark ? 'dark' : 'light')) {
    console.log('the theme is', t);
    process.exit(1);
  }
}
process.exit(0);
'''
