export { createGlobalStore } from '@/stores/stores';
export { SettingsStore } from '@/stores/settings-store';
export { default as SoroClient } from '@/util/SoroClient';
export { default as HttpClient } from '@/util/HttpClient';
export { default as OrderingGraph } from '@/components/ordering/ordering-graph.vue';
export { default as ExtendedSearch } from '@/components/sidebar/search/extended-search.vue';
export { default as Station } from '@/components/sidebar/station/station.vue';
export { default as Sidebar } from '@/components/sidebar/sidebar.vue';
export { default as Menu } from '@/components/sidebar/menu/menu.vue';
export { default as MenuSettings } from '@/components/sidebar/menu/settings.vue';
export { default as IdInput } from '@/components/base/soro-id-input.vue';
export { default as DateTimeRange } from '@/components/base/soro-datetimerange.vue';
export { default as Select } from '@/components/base/soro-select.vue';
export { default as Switch } from '@/components/base/soro-switch.vue';
export { default as Legend } from '@/components/infrastructure/infrastructure-legend.vue';
export { default as InfrastructureMap } from '@/components/infrastructure/infrastructure-map.vue';
export { ElementTypes } from '@/components/infrastructure/element-types';
export { default as Adapter } from '@/golden-layout/golden-layout-adapter.vue';
export { default as App } from '@/App.vue';
export * as vue from 'vue';
export * as vuex from 'vuex';
export * as maplibre from 'maplibre-gl';
export * as sigma from 'sigma';
export * as graphology from 'graphology';
export * as goldenlayout from 'golden-layout';
export * as vuetify from 'vuetify';
export { vuetify as theVuetify } from '@/vuetify';
