// the parts of the packages under the SDK that its types mention
declare module "@cosmjs/cosmwasm-stargate" {
  export class CosmWasmClient { queryContractSmart(addr: string, msg: any): Promise<any>; [k: string]: any; }
  export class SigningCosmWasmClient extends CosmWasmClient { execute(sender: string, addr: string, msg: any, fee: any, memo?: string, funds?: readonly any[]): Promise<ExecuteResult>; }
  export interface ExecuteResult { readonly transactionHash: string; [k: string]: any; }
  export interface MsgExecuteContractEncodeObject { typeUrl: string; value: any; }
}
declare module "cosmwasm" {
  export interface MsgExecuteContractEncodeObject { typeUrl: string; value: any; }
}
declare module "@cosmjs/amino" {
  export interface Coin { readonly denom: string; readonly amount: string; }
  export interface StdFee { readonly amount: readonly Coin[]; readonly gas: string; [k: string]: any; }
}
declare module "@cosmjs/encoding" {
  export function toUtf8(s: string): Uint8Array;
  export function fromUtf8(b: Uint8Array): string;
}
declare module "cosmjs-types/cosmwasm/wasm/v1/tx" {
  export const MsgExecuteContract: any;
}
declare module "@tanstack/react-query" {
  export type UseQueryOptions<A = any, E = any, D = A> = { enabled?: boolean; staleTime?: number; [k: string]: any };
  export function useQuery<A = any, E = any, D = A>(key: any, fn?: any, options?: any): { data: D | undefined; [k: string]: any };
}
