// A stand-in for the themes of Vuetify.
let last;
export function createVuetify(o = {}) {
  const themes = { value: JSON.parse(JSON.stringify({ light: { colors: {} }, dark: { colors: {} }, ...(o.theme?.themes ?? {}) })) };
  const name = { value: o.theme?.defaultTheme ?? 'light' };
  const current = { get value() { return themes.value[name.value]; } };
  last = { theme: { themes, global: { name, current }, current, name } };
  return last;
}
export const useTheme = () => last.theme;
export const useDisplay = () => ({});
