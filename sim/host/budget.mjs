// Number of cases per property and tier: quick takes about a minute on 8 cores, thorough about half an hour.
const QUICK = { C01: 3000, C02: 6000, C03: 8000, C04: 2500, C05: 4000, C06: 5000, C07: 2000, C08: 4000, C09: 2000, C10: 9000, C11: 6000, C12: 4000, C13: 3500, C14: 7000, C15: 4500, C16: 4000, C17: 3000, C18: 2000, C19: 2500 };
export const BUDGET = Object.fromEntries(Object.entries(QUICK).map(([p, n]) => [p, { quick: n, thorough: 30 * n }]));
